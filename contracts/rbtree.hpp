// libstdc++'s map functions that live in its shared library, as an unbalanced
// search tree (same contract: order and iteration; balance is not observable)
#pragma once
#ifndef VC_NATIVE
#include <map>
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;                         // also makes header->_M_left = x where p is the header
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
static _Rb_tree_node_base* vc_next(_Rb_tree_node_base* x)
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    auto y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vc_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vc_next(const_cast<_Rb_tree_node_base*>(x)); }
static _Rb_tree_node_base* vc_previous(_Rb_tree_node_base* x, bool end)
{
    if (end) return x->_M_right;
    if (x->_M_left)
    {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    auto y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
// the header is the red node that is its parent's parent; the nodes here are black
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vc_previous(x, x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
#endif
