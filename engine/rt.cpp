// Bitcode versions of the few out-of-line libc/libstdc++ routines the code under test calls (everything else is
// instantiated from headers). These are models: they are part of the trusted base of every check.
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <string>

namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
	if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base *y = x->_M_parent;
	while(x == y->_M_right) { x = y; y = y->_M_parent; }
	if(x->_M_right != y) x = y;
	return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if(x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while(y->_M_right) y = y->_M_right; return y; }
	_Rb_tree_node_base *y = x->_M_parent;
	while(x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root)
{
	_Rb_tree_node_base *const y = x->_M_right; x->_M_right = y->_M_left; if(y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
	if(x == root) root = y; else if(x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
	y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root)
{
	_Rb_tree_node_base *const y = x->_M_left; x->_M_left = y->_M_right; if(y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
	if(x == root) root = y; else if(x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
	y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
	_Rb_tree_node_base *&root = h._M_parent;
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
	if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
	while(x != root && x->_M_parent->_M_color == _S_red)
	{
		_Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
		if(x->_M_parent == xpp->_M_left)
		{
			_Rb_tree_node_base *const y = xpp->_M_right;
			if(y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else { if(x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
		}
		else
		{
			_Rb_tree_node_base *const y = xpp->_M_left;
			if(y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else { if(x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
		}
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
	_Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
	_Rb_tree_node_base *y = z, *x = 0, *xp = 0;
	if(y->_M_left == 0) x = y->_M_right;
	else if(y->_M_right == 0) x = y->_M_left;
	else { y = y->_M_right; while(y->_M_left) y = y->_M_left; x = y->_M_right; }
	if(y != z)
	{
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if(y != z->_M_right) { xp = y->_M_parent; if(x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
		else xp = y;
		if(root == z) root = y; else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
		_Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
		y = z;
	}
	else
	{
		xp = y->_M_parent; if(x) x->_M_parent = y->_M_parent;
		if(root == z) root = x; else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if(leftmost == z) { if(z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base *q = x; while(q->_M_left) q = q->_M_left; leftmost = q; } }
		if(rightmost == z) { if(z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base *q = x; while(q->_M_right) q = q->_M_right; rightmost = q; } }
	}
	if(y->_M_color != _S_red)
	{
		while(x != root && (x == 0 || x->_M_color == _S_black))
			if(x == xp->_M_left)
			{
				_Rb_tree_node_base *w = xp->_M_right;
				if(w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
				if((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else
				{
					if(w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black; if(w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
				}
			}
			else
			{
				_Rb_tree_node_base *w = xp->_M_left;
				if(w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
				if((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else
				{
					if(w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black; if(w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
				}
			}
		if(x) x->_M_color = _S_black;
	}
	return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
	if(this != last)
	{
		last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
		_List_node_base *const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
	}
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while(t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
	if(x._M_next != &x)
	{
		if(y._M_next != &y) { _List_node_base *a = x._M_next, *b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
		else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
	}
	else if(y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}


template class std::basic_string<char>; // libstdc++ ships these out of line
