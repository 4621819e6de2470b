// Assumed contract: the node operations of libstdc++'s std::list, which live in the shared library (reference implementation).
#pragma once
#ifdef VF_PROVE
#include <list>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
	if(x._M_next != &x) {
		if(y._M_next != &y) {
			std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
			x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
		} else {
			y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
		}
	} else if(y._M_next != &y) {
		x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
	}
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
	if(this != l) {
		l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
		_List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
	}
}
} }
#endif
