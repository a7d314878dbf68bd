// definitions of libstdc++ externals for the verifier
#include <list>
#include <map>
extern "C" char __libc_single_threaded = 1;
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        _M_prev->_M_next = first;
        _List_node_base* const t = _M_prev;
        _M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = t;
    }
}
} // namespace __detail
// search trees: kept unbalanced (the order of iteration and the content do not depend on the balance)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    if (x->_M_right != y)
        x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left)
    {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left)
            h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
}
} // namespace std
