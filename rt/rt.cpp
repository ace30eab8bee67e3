// Bitcode bodies for the compiled (non-header) parts of libstdc++ that the
// planner needs: hash table sizing and red-black trees / lists.
#include <unordered_set>
#include <map>
#include <set>
#include <list>
#include <cmath>
namespace std {
	namespace __detail {
		static const unsigned long primes[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 79, 103, 137, 179, 233, 307, 401, 523, 683, 907, 1181, 1549, 2029, 2657, 3499, 4583, 6007, 7867, 10303, 13499, 17683, 23159, 30341, 39727, 52021, 68111, 89189, 116797, 152947, 200297, 262313, 343487, 449797 };
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
		{
			if (n == 0) return 1;
			size_t r = primes[sizeof(primes) / sizeof(*primes) - 1];
			for (unsigned long p : primes)
				if (p >= n) { r = p; break; }
			_M_next_resize = (size_t)__builtin_floor(r * (double)_M_max_load_factor);
			return r;
		}
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
		{
			if (ne + ni > _M_next_resize) {
				double mb = max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
				if (mb >= nb) return { true, _M_next_bkt(max<size_t>((size_t)__builtin_floor(mb) + 1, nb * 2)) };
				_M_next_resize = (size_t)__builtin_floor(nb * (double)_M_max_load_factor);
				return { false, 0 };
			}
			return { false, 0 };
		}
		void _List_node_base::_M_hook(_List_node_base* const p) noexcept
		{
			_M_next = p;
			_M_prev = p->_M_prev;
			p->_M_prev->_M_next = this;
			p->_M_prev = this;
		}
		void _List_node_base::_M_unhook() noexcept
		{
			_M_prev->_M_next = _M_next;
			_M_next->_M_prev = _M_prev;
		}
		void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
		{
			if (this != l) {
				l->_M_prev->_M_next = this;
				f->_M_prev->_M_next = l;
				this->_M_prev->_M_next = f;
				auto* tmp = this->_M_prev;
				this->_M_prev = l->_M_prev;
				l->_M_prev = f->_M_prev;
				f->_M_prev = tmp;
			}
		}
	}
	static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) throw()
	{
		if (x->_M_right) {
			x = x->_M_right;
			while (x->_M_left) x = x->_M_left;
		} else {
			auto* y = x->_M_parent;
			while (x == y->_M_right) { x = y; y = y->_M_parent; }
			if (x->_M_right != y) x = y;
		}
		return x;
	}
	_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
	const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
	static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) throw()
	{
		if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
		else if (x->_M_left) {
			auto* y = x->_M_left;
			while (y->_M_right) y = y->_M_right;
			x = y;
		} else {
			auto* y = x->_M_parent;
			while (x == y->_M_left) { x = y; y = y->_M_parent; }
			x = y;
		}
		return x;
	}
	_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
	const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }

	// unbalanced insertion/removal: the balance of the tree is not observable
	// through the container interface (the header keeps _M_color = red).
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
	{
		x->_M_parent = p;
		x->_M_left = nullptr;
		x->_M_right = nullptr;
		x->_M_color = _S_black;
		if (left) {
			p->_M_left = x;
			if (p == &h) {
				h._M_parent = x;
				h._M_right = x;
			} else if (p == h._M_left) h._M_left = x;
		} else {
			p->_M_right = x;
			if (p == h._M_right) h._M_right = x;
		}
	}
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
	{
		auto transplant = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
			if (h._M_parent == u) h._M_parent = v;
			else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
			else u->_M_parent->_M_right = v;
			if (v) v->_M_parent = u->_M_parent;
		};
		_Rb_tree_node_base* nl = h._M_left == z ? (h._M_right == z ? &h : inc(z)) : h._M_left;
		_Rb_tree_node_base* nr = h._M_right == z ? (h._M_left == z ? &h : dec(z)) : h._M_right;
		if (!z->_M_left) transplant(z, z->_M_right);
		else if (!z->_M_right) transplant(z, z->_M_left);
		else {
			auto* y = z->_M_right;
			while (y->_M_left) y = y->_M_left;
			if (y->_M_parent != z) {
				transplant(y, y->_M_right);
				y->_M_right = z->_M_right;
				y->_M_right->_M_parent = y;
			}
			transplant(z, y);
			y->_M_left = z->_M_left;
			y->_M_left->_M_parent = y;
		}
		h._M_left = nl;
		h._M_right = nr;
		return z;
	}
}
