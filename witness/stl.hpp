// Definitions of the functions of libstdc++ that are not in its headers, without their balancing and growth policies:
// containers behave the same, only their layout differs.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <map>
#include <unordered_map>
#include <list>
#include <string>
namespace std {
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t) const { return 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base * p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
size_t _Hash_bytes(const void * p, size_t n, size_t s) { const char * c = static_cast<const char *>(p); for (size_t i = 0; i < n; ++i) s = 31 * s + (unsigned char) c[i]; return s; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base * _Rb_tree_increment(const _Rb_tree_node_base * x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) noexcept {
    if (x->_M_color == _S_red) return x->_M_right;     // the header
    if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
}
