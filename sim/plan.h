// Plans: what one simulated run does. A plan is a pure function of (profile, seed), and is
// also the replay format.
#pragma once
#include <map>
#include <string>
#include <vector>

#include "rt.h"
#include "wl.h"

namespace plan {
using sim::u32;
using sim::u64;

enum K : int {
    V,   // x0 new variable of type lt
    M,   // x0 variable gets a new value
    LP,  // x0 new handle to a constant leaf
    LF,  // x0 new handle to a copy of variable x1
    B,   // x0 new handle to a composed expression (frag, operands x1..)
    BA,  // x0 existing handle rebound to a composed expression
    HC,  // x0 new handle, copy of x1
    HM,  // x0 new handle, moved from x1
    HA,  // x0 = x1
    HX,  // x0 = move(x1)
    HL,  // x0 = constant leaf
    HD,  // destroy handle x0
    EV,  // evaluate handle x0
    JV,  // Jacobian of x0 wrt variable x1
    JH,  // Jacobian of x0 wrt the node of handle x1
    JM,  // several Jacobians of x0 at once: variables x1, x2, node of x3
    RV,  // reverse mode: all Jacobians of x0
    DY,  // x0 new Dynamic object
    S,   // x0 new static expression object
    SC,  // x0 new static expression, copy of x1
    SM,  // x0 new static expression, moved from x1
    SD,  // destroy
    SE,  // evaluate
    SJ,  // Jacobian wrt operand x1
    SR,  // reverse mode
    D,   // evaluate a temporary expression
    AS,  // variable x0 = expression
    BK,  // assign part of variable x0
    FN,  // x0 new factor
    FC,  // x0 copy of factor x1
    FE,  // residual
    FJ,  // residual and Jacobians
    FV,  // write a factor's variable
    FD,  // destroy factor
    RN,  // random element
    DC,  // x0 new Dynamic object, copy of x1 (route 1: moved from x1, which goes away)
    DD,  // destroy Dynamic object x0
    DE,  // evaluate it
    RP,  // x0 new RefProxy: of Dynamic object x1 (route 0), kept pointer x1 (1), copy of x1 (2)
    RA,  // RefProxy x0 rebound, likewise
    RX,  // destroy it
    RE,  // evaluate it
    RJ,  // its Jacobian wrt variable x1
    RR,  // all its Jacobians
    HR,  // Jacobian of handle x0 wrt the node of RefProxy x1
    KP,  // x0 new shared pointer, the result of get() of handle x1
    KD,  // release it
    NK
};
extern const char *const kName[NK];

struct Op {
    u32 id = 0;
    K k = V;
    int x[6] = {-1, -1, -1, -1, -1, -1};
    int lt = 0, frag = -1, route = 0;
    int fault = 0;   // sim::FaultKind
    u32 fk = 0;      // its parameter
    int sweep = 0;   // 1: repeat with fk = 1, 2, ... until the fault no longer fires
    u64 vs = 0;      // seed of values
};

struct Phase {
    std::vector<std::vector<Op>> th;  // one list per thread
};

struct Plan {
    std::string profile;
    u64 seed = 0;
    u32 flags = 0;
    sim::Knobs knobs;
    std::vector<Phase> phases;
    u64 endSeed = 1;  // order in which things are destroyed at the end
    std::vector<sim::Knobs> variants;  // runs to be compared bit for bit (C12)
    bool haveSwitches = false;
    std::vector<std::vector<sim::Switch>> switches;  // one list per variant (or one)
};

enum Flags : u32 {
    FVal = 1,     // values against the model
    FJac = 2,     // Jacobians against the model
    FNum = 4,     // numerical Jacobians against the model
    FPure = 8,    // variables keep their bits unless assigned
    FLive = 16,   // expression nodes live exactly as long as someone refers to them
    FBind = 32,   // handles stay bound to what they were bound to
    FMem = 64,    // no lasting memory from operations which create nothing
    FAtom = 128,  // failed operations leave everything as it was
    FAssign = 256,  // the outcome of assignments
    FFac = 512,   // factors
    FRnd = 1024,  // random elements
    FDig = 2048,  // digests of all results
    FLeak = 4096  // everything is released at the end
};

Plan generate(const std::string &profile, u64 seed);
std::vector<std::string> profiles();
std::string write(const Plan &);
bool read(const std::string &text, Plan &out, std::string &expectClass);
}  // namespace plan

/** Runs the plan in this process; returns only if nothing was violated. */
void execute(const plan::Plan &, const sim::Knobs &);
