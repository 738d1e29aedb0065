// range-v3 as this project uses it has a group_by view that can be iterated when const; the one
// installed here (0.12) cannot. Same grouping: a group is a maximal run of elements related to
// its first element.
#ifndef VERIF_SHIM_GROUP_BY
#define VERIF_SHIM_GROUP_BY
#include <memory>
#include <vector>
#include <range/v3/range_fwd.hpp>
#include <range/v3/functional/bind_back.hpp>
#include <range/v3/functional/invoke.hpp>
#include <range/v3/view/all.hpp>
#include <range/v3/view/interface.hpp>
#include <range/v3/view/subrange.hpp>
#include <range/v3/view/view.hpp>
namespace ranges {
template < typename Base >
class const_group_by_view : public view_interface< const_group_by_view< Base >, finite > {
  using Iterator = iterator_t< Base >;
  using Group = subrange< Iterator, Iterator >;
  struct Store { Base base; std::vector< Group > groups; };
  std::shared_ptr< Store > s_;
public:
  const_group_by_view() = default;
  template < typename F >
  const_group_by_view( Base base, F f ) : s_( new Store{ std::move( base ), {} } ) {
    auto end = ranges::end( s_->base );
    auto first = ranges::begin( s_->base );
    while ( first != end ) {
      auto last = first;
      while ( last != end && invoke( f, *first, *last ) ) ++last;
      s_->groups.emplace_back( first, last );
      first = last;
    }
  }
  auto begin() const { return s_->groups.begin(); }
  auto end() const { return s_->groups.end(); }
};
namespace views {
  struct group_by_base_fn {
    template < typename Rng, typename Fun >
    auto operator()( Rng&& rng, Fun fun ) const { return const_group_by_view< all_t< Rng > >( all( static_cast< Rng&& >( rng ) ), std::move( fun ) ); }
  };
  struct group_by_fn : group_by_base_fn {
    using group_by_base_fn::operator();
    template < typename Fun > auto operator()( Fun fun ) const { return make_view_closure( bind_back( group_by_base_fn{}, std::move( fun ) ) ); }
  };
  inline constexpr group_by_fn group_by{};
}
}
#endif
