#include "wave/geometry/core.hpp"
#include "wave/geometry/geometry.hpp"
template <typename A, typename B>
struct Pair : wave::CompoundVectorBase<Pair<A, B>>, wave::NaryStorage<Pair<A, B>, A, B> {
    using Storage = wave::NaryStorage<Pair<A, B>, A, B>;
    using Storage::Storage;
    using Storage::operator=;
};
template <typename A, typename B, typename C>
struct Triple : wave::CompoundVectorBase<Triple<A, B, C>>,
                wave::NaryStorage<Triple<A, B, C>, A, B, C> {
    using Storage = wave::NaryStorage<Triple<A, B, C>, A, B, C>;
    using Storage::Storage;
    using Storage::operator=;
};
namespace wave {
namespace internal {
template <typename A, typename B>
struct traits<Pair<A, B>> : compound_vector_traits_base<Pair<A, B>, A, B>,
                            frameable_vector_traits {};
template <typename A, typename B, typename C>
struct traits<Triple<A, B, C>> : compound_vector_traits_base<Triple<A, B, C>, A, B, C>,
                                 frameable_vector_traits {};
}  // namespace internal
}  // namespace wave
