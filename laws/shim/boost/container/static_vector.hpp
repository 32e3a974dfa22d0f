// Reference implementation of boost::container::static_vector for the analyses (the library itself is trusted).
#pragma once
#include <boost/container/container_fwd.hpp>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace boost { namespace container {
template <typename T, std::size_t N, typename O> class static_vector
{
public:
    typedef T value_type;
    typedef T& reference;
    typedef T const& const_reference;
    typedef T* pointer;
    typedef T const* const_pointer;
    typedef T* iterator;
    typedef T const* const_iterator;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::reverse_iterator<iterator> reverse_iterator;
    typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    static_vector() : n(0) {}
    explicit static_vector(size_type c) : n(0) { resize(c); }
    static_vector(size_type c, T const& x) : n(0) { resize(c, x); }
    template <typename I, typename = std::enable_if_t<!std::is_integral_v<I>>> static_vector(I f, I l) : n(0) { insert(end(), f, l); }
    static_vector(std::initializer_list<T> i) : n(0) { insert(end(), i.begin(), i.end()); }
    static_vector(static_vector const& o) : n(0) { insert(end(), o.begin(), o.end()); }
    static_vector(static_vector&& o) : n(0) { for (auto& x : o) push_back(std::move(x)); }
    ~static_vector() { clear(); }
    static_vector& operator=(static_vector const& o) { if (&o != this) { clear(); insert(end(), o.begin(), o.end()); } return *this; }
    static_vector& operator=(static_vector&& o) { if (&o != this) { clear(); for (auto& x : o) push_back(std::move(x)); } return *this; }
    static_vector& operator=(std::initializer_list<T> i) { clear(); insert(end(), i.begin(), i.end()); return *this; }
    template <typename I> void assign(I f, I l) { clear(); insert(end(), f, l); }
    iterator begin() { return p(); }
    iterator end() { return p() + n; }
    const_iterator begin() const { return p(); }
    const_iterator end() const { return p() + n; }
    const_iterator cbegin() const { return p(); }
    const_iterator cend() const { return p() + n; }
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    bool empty() const { return n == 0; }
    size_type size() const { return n; }
    static constexpr size_type capacity() { return N; }
    static constexpr size_type max_size() { return N; }
    void reserve(size_type) {}
    reference operator[](size_type i) { return p()[i]; }
    const_reference operator[](size_type i) const { return p()[i]; }
    reference at(size_type i) { if (i >= n) throw std::out_of_range("at"); return p()[i]; }
    const_reference at(size_type i) const { if (i >= n) throw std::out_of_range("at"); return p()[i]; }
    reference front() { return p()[0]; }
    const_reference front() const { return p()[0]; }
    reference back() { return p()[n - 1]; }
    const_reference back() const { return p()[n - 1]; }
    T* data() { return p(); }
    T const* data() const { return p(); }
    template <typename... A> reference emplace_back(A&&... a) { room(1); ::new (static_cast<void*>(p() + n)) T(std::forward<A>(a)...); ++n; return back(); }
    void push_back(T const& x) { emplace_back(x); }
    void push_back(T&& x) { emplace_back(std::move(x)); }
    void pop_back() { --n; p()[n].~T(); }
    void clear() { while (n) pop_back(); }
    void resize(size_type c) { while (n > c) pop_back(); while (n < c) emplace_back(); }
    void resize(size_type c, T const& x) { while (n > c) pop_back(); while (n < c) emplace_back(x); }
    template <typename... A> iterator emplace(const_iterator w, A&&... a)
    {
        size_type const i = w - p();
        T t(std::forward<A>(a)...);
        open(i, 1);
        ::new (static_cast<void*>(p() + i)) T(std::move(t));
        ++n;
        return p() + i;
    }
    iterator insert(const_iterator w, T const& x) { return emplace(w, x); }
    iterator insert(const_iterator w, T&& x) { return emplace(w, std::move(x)); }
    iterator insert(const_iterator w, size_type c, T const& x) { T const t(x); iterator r = p() + (w - p()); for (size_type k = 0; k < c; ++k) emplace(r, t); return r; }
    template <typename I, typename = std::enable_if_t<!std::is_integral_v<I>>> iterator insert(const_iterator w, I f, I l)
    {
        size_type const i = w - p();
        size_type c = 0;
        for (I q = f; q != l; ++q) ++c;
        open(i, c);
        for (size_type k = 0; k < c; ++k, ++f) ::new (static_cast<void*>(p() + i + k)) T(*f);
        n += c;
        return p() + i;
    }
    iterator erase(const_iterator w) { return erase(w, w + 1); }
    iterator erase(const_iterator f, const_iterator l)
    {
        size_type const i = f - p(), c = l - f;
        for (size_type k = i; k + c < n; ++k) p()[k] = std::move(p()[k + c]);
        for (size_type k = 0; k < c; ++k) pop_back();
        return p() + i;
    }
    void swap(static_vector& o) { static_vector t(std::move(o)); o = std::move(*this); *this = std::move(t); }
    bool operator==(static_vector const& o) const { if (n != o.n) return false; for (size_type i = 0; i < n; ++i) if (!(p()[i] == o.p()[i])) return false; return true; }
    bool operator!=(static_vector const& o) const { return !(*this == o); }
    bool operator<(static_vector const& o) const { for (size_type i = 0; i < n && i < o.n; ++i) { if (p()[i] < o.p()[i]) return true; if (o.p()[i] < p()[i]) return false; } return n < o.n; }
private:
    void room(size_type c) { if (n + c > N) throw std::bad_alloc(); }
    void open(size_type i, size_type c) { room(c); if (c) for (size_type k = n; k > i; --k) { ::new (static_cast<void*>(p() + k - 1 + c)) T(std::move(p()[k - 1])); p()[k - 1].~T(); } }
    T* p() { return reinterpret_cast<T*>(raw); }
    T const* p() const { return reinterpret_cast<T const*>(raw); }
    alignas(T) unsigned char raw[sizeof(T) * N];
    size_type n;
};
} }
