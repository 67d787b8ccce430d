// Bodies of the non-inline parts of libstdc++ containers (they live in libstdc++.so), compiled only into the symbolic build
// and only for headers the translation unit includes. The native replay uses the real library.
#ifdef _STL_TREE_H
namespace std {
typedef _Rb_tree_node_base* vf_rb_;
_GLIBCXX_PURE vf_rb_ _Rb_tree_increment(vf_rb_ x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    vf_rb_ y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<vf_rb_>(x)); }
_GLIBCXX_PURE vf_rb_ _Rb_tree_decrement(vf_rb_ x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    vf_rb_ y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<vf_rb_>(x)); }
static void vf_rot_(vf_rb_ x, vf_rb_& root, bool left) {
    vf_rb_ y = left ? x->_M_right : x->_M_left; vf_rb_ in = left ? y->_M_left : y->_M_right;
    (left ? x->_M_right : x->_M_left) = in; if (in) in->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    (left ? y->_M_left : y->_M_right) = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, vf_rb_ x, vf_rb_ p, _Rb_tree_node_base& header) throw() {
    vf_rb_& root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        vf_rb_ g = x->_M_parent->_M_parent; bool l = x->_M_parent == g->_M_left; vf_rb_ u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
        else {
            if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; vf_rot_(x, root, l); }
            x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; vf_rot_(g, root, !l);
        }
    }
    root->_M_color = _S_black;
}
// The balance after a removal is not observable: unlink and keep the order, no recolouring.
vf_rb_ _Rb_tree_rebalance_for_erase(vf_rb_ const z, _Rb_tree_node_base& header) throw() {
    vf_rb_& root = header._M_parent;
    if (header._M_left == z) header._M_left = _Rb_tree_increment(z);
    if (header._M_right == z) { header._M_right = z->_M_left || z->_M_parent != &header ? _Rb_tree_decrement(z) : &header; }
    auto put = [&](vf_rb_ o, vf_rb_ n) { if (o == root) root = n; else if (o == o->_M_parent->_M_left) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) put(z, z->_M_right);
    else if (!z->_M_right) put(z, z->_M_left);
    else {
        vf_rb_ y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
    }
    if (!root) { header._M_left = &header; header._M_right = &header; } else root->_M_color = _S_black;
    return z;
}
}
#endif
#ifdef _STL_LIST_H
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
} }
#endif
#ifdef _HASHTABLE_POLICY_H
namespace std { namespace __detail {   // load factor 1, the default
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned char small[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    static const unsigned primes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897, 116731, 126271, 136607};
    if (n < 14) { if (n == 0) return 1; _M_next_resize = small[n]; return small[n]; }
    size_t k = 0; while (k + 1 < sizeof primes / sizeof *primes && primes[k] < n) ++k;
    _M_next_resize = primes[k]; return primes[k];
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
    if (e + i <= _M_next_resize) return {false, 0};
    size_t m = std::max<size_t>(e + i, _M_next_resize ? 0 : 11);
    if (m >= b) return {true, _M_next_bkt(std::max<size_t>(m + 1, b * 2))};
    _M_next_resize = b; return {false, 0};
}
} }
#endif
#ifdef _GLIBCXX_MUTEX
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy(void) { __once_call(); } }
#endif
