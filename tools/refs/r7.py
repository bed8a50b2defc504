"""refactorings: iterator_facade (M04)"""
F = "include/utl/iterator_facade.h"
REFS = [
 dict(id="if-less-flip", checks="m04", file=F, edits=[("return (left - right) < 0;", "return right > left;")]),
 dict(id="if-le-not", checks="m04", file=F, edits=[("return (left - right) <= 0;", "return !(left > right);"), ("return (left - right) >= 0;", "return !(left < right);")]),
 dict(id="if-less-distance", checks="m04", file=F, edits=[("return (left - right) < 0;", "return left.distance_to(right) > 0;")]),
 dict(id="if-minus-assign", checks="m04", file=F, edits=[("    return self = self - off;", "    using signed_diff_type =\n        std::make_signed_t<detail::infer_difference_type_t<self_type>>;\n    self.advance(-static_cast<signed_diff_type>(off));\n    return self;")]),
 dict(id="if-plus-body", checks="m04", file=F, edits=[("    return left += off;", "    left.advance(off);\n    return left;")]),
 dict(id="if-index-local", checks="m04", file=F, edits=[("    return *(_self() + pos);", "    auto const at = _self() + pos;\n    return *at;")]),
 dict(id="if-wrapper-advance-local", checks="m04", file=F, edits=[("    std::advance(wrapped_iterator, off);", "    auto const by = static_cast<\n        typename std::iterator_traits<InnerIterator>::difference_type>(off);\n    std::advance(wrapped_iterator, by);")]),
 dict(id="if-wrapper-distance", checks="m04", file=F, edits=[("    return other.wrapped_iterator - wrapped_iterator;", "    return std::distance(wrapped_iterator, other.wrapped_iterator);")]),
 dict(id="if-equal-order", checks="m04", file=F, edits=[("    if constexpr (detail::iter_has_equal_to_method<self_type>) {\n      return me.equal_to(right);\n    } else if constexpr (detail::iter_has_distance_to_method<self_type>) {\n      return me.distance_to(right) == 0;", "    if constexpr (detail::iter_has_distance_to_method<self_type>) {\n      return right.distance_to(me) == 0;\n    } else if constexpr (detail::iter_has_equal_to_method<self_type>) {\n      return right.equal_to(me);")]),
 dict(id="if-arrow-ptr", checks="m04", file=F, edits=[("    decltype(auto) deref = **this;\n    if constexpr (std::is_reference_v<decltype(deref)>) {", "    decltype(auto) deref = _self().dereference();\n    if constexpr (std::is_lvalue_reference_v<decltype(deref)>) {")]),
 dict(id="if-postinc-proxy", checks="m04", file=F, edits=[("      auto cp = _self();\n      ++*this;\n      return cp;", "      self_type const before = _self();\n      ++_self();\n      return before;")]),
 dict(id="if-concept-requires", checks="m04", file=F, edits=[("concept iter_is_single_pass = bool(T::single_pass_iterator);", "concept iter_is_single_pass =\nrequires { requires static_cast<bool>(T::single_pass_iterator); };")]),
 dict(id="if-sentinel-eq", checks="m04", file=F, edits=[("                                                 S) noexcept {\n    return !self.at_end();", "                                                 S s) noexcept {\n    return !(self == s);")]),
 dict(id="if-no-ne", checks="m04", file=F, edits=[("""  [[nodiscard]] friend constexpr bool operator!=(
      const self_type& left, const self_type& right) noexcept {
    return !(left == right);
  }
""", "")]),
 dict(id="if-decrement-first", checks="m04", file=F, edits=[("    auto cp = _self();\n    --*this;\n    return cp;", "    self_type cp{_self()};\n    --_self();\n    return cp;")]),
 dict(id="if-value-type", checks="m04", file=F, edits=[("std::remove_const_t<std::remove_reference_t<decltype(*_it)>>", "std::remove_cvref_t<decltype(*_it)>")]),
]
