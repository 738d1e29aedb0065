#!/usr/bin/env python3
"""range-v3 as this project uses it (0.4/0.5) converts a view to a container implicitly; the one installed
here (0.12) needs ranges::to. Writes a copy of the installed view/interface.hpp with that conversion added.

    range_gen.py OUTDIR"""
import os, sys

SRC = "/usr/include/range/v3/view/interface.hpp"
ADD = '''
        template<typename Container, typename Alloc_ = typename Container::allocator_type,
                 typename D_ = Derived,
                 std::enable_if_t<std::is_convertible<range_reference_t<D_>, typename Container::value_type>::value, int> = 0>
        operator Container()
        {
            Container c_;
            for(auto && e_ : derived()) c_.insert(c_.end(), static_cast<decltype(e_) &&>(e_));
            return c_;
        }
        template<typename Container, typename Alloc_ = typename Container::allocator_type,
                 typename D_ = Derived const,
                 std::enable_if_t<std::is_convertible<range_reference_t<D_>, typename Container::value_type>::value, int> = 0>
        operator Container() const
        {
            Container c_;
            for(auto && e_ : derived()) c_.insert(c_.end(), static_cast<decltype(e_) &&>(e_));
            return c_;
        }
'''
ANCHOR = "        /// \\brief Test whether a range can be empty:\n"


def main():
    out = os.path.join(sys.argv[1], "range", "v3", "view")
    os.makedirs(out, exist_ok=True)
    s = open(SRC).read()
    assert s.count(ANCHOR) == 1
    open(os.path.join(out, "interface.hpp"), "w").write(s.replace(ANCHOR, ADD + ANCHOR))


main()
