"""C16 and C17: the compiler's verdict on client programs.

ACCEPT: every documented operation in every documented configuration, one client function per line.  REJECT: pairs of
programs that differ in the misuse only: the first has to compile, the second must not.  Nothing is linked or run."""
import os
import re

import build

HEADERS = ["queue", "stack", "spsc_queue", "policies", "lockfree_forward"]

PRELUDE = """
#include <boost/lockfree/lockfree_forward.hpp>
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/policies.hpp>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace u {
namespace lf = boost::lockfree;
struct Pod { long a, b, c; };
struct Small { char c; };
struct alignas( 512 ) Wide { char c[ 8 ]; };
struct Ctor { int x; Ctor() : x( 0 ) {} Ctor( Ctor const& o ) : x( o.x ) {} Ctor& operator=( Ctor const& ) = default; };
struct Full { std::string s; Full() {} Full( Full const& o ) : s( o.s ) {} Full& operator=( Full const& o ) { s = o.s; return *this; } ~Full() {} };
struct Dtor { int x; ~Dtor(); };
struct Assign { int x; Assign& operator=( Assign const& ); };
struct NoCopy { int x; NoCopy(); NoCopy( NoCopy const& ) = delete; NoCopy& operator=( NoCopy const& ) = default; };
struct Unrelated {};
struct FromAny { template < class T > FromAny( T const& ) {} template < class T > FromAny& operator=( T const& ) { return *this; } FromAny() {} };
struct Explicitly { Explicitly() {} template < class T > explicit Explicitly( T const& ) {} };
struct F { template < class T > void operator()( T const& ) {} };
struct FC { template < class T > void operator()( T const& ) const {} };
struct FM { template < class T > void operator()( T& ) {} };
struct FMC { template < class T > void operator()( T& ) const {} };
template < class T > void fun( T const& ) {}
template < class T >
struct MinAlloc
{
    typedef T value_type; typedef T* pointer; typedef T const* const_pointer; typedef T& reference; typedef T const& const_reference;
    typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template < class U > struct rebind { typedef MinAlloc< U > other; };
    MinAlloc() {}
    template < class U > MinAlloc( MinAlloc< U > const& ) {}
    T* allocate( std::size_t n ) { return static_cast< T* >( ::operator new( n * sizeof( T ) ) ); }
    void deallocate( T* p, std::size_t ) { ::operator delete( p ); }
    template < class U > bool operator==( MinAlloc< U > const& ) const { return true; }
    template < class U > bool operator!=( MinAlloc< U > const& ) const { return false; }
};
template < class T >
struct FwdIt
{
    typedef T value_type; typedef T const* pointer; typedef T const& reference; typedef std::ptrdiff_t difference_type;
    typedef std::forward_iterator_tag iterator_category;
    FwdIt() : p( 0 ) {}
    T const& operator*() const { return *p; }
    T const* operator->() const { return p; }
    FwdIt& operator++() { ++p; return *this; }
    FwdIt operator++( int ) { FwdIt o( *this ); ++p; return o; }
    bool operator==( FwdIt const& o ) const { return p == o.p; }
    bool operator!=( FwdIt const& o ) const { return p != o.p; }
    T const* p;
};
typedef std::vector< int > dummy;
}
using namespace u;
"""

NODE_CONFIGS = {
    "default": ("", "grow"),
    "not_fixed": ("lf::fixed_sized< false >", "grow"),
    "fixed": ("lf::fixed_sized< true >", "fixed"),
    "capacity": ("lf::capacity< 16 >", "ct"),
    "capacity_not_fixed": ("lf::capacity< 16 >, lf::fixed_sized< false >", "ct"),
    "capacity_fixed": ("lf::capacity< 16 >, lf::fixed_sized< true >", "ct"),
    "alloc": ("lf::allocator< std::allocator< int > >", "grow"),
    "alloc_void": ("lf::allocator< std::allocator< void > >", "grow"),
    "alloc_user": ("lf::allocator< MinAlloc< char > >", "grow"),
    "alloc_fixed": ("lf::allocator< MinAlloc< char > >, lf::fixed_sized< true >", "fixed"),
    "fixed_alloc": ("lf::fixed_sized< true >, lf::allocator< std::allocator< int > >", "fixed"),
    "capacity_alloc": ("lf::capacity< 16 >, lf::allocator< MinAlloc< char > >", "ct"),
}
RING_CONFIGS = {
    "default": ("", "fixed"),
    "capacity": ("lf::capacity< 16 >", "ct"),
    "alloc": ("lf::allocator< std::allocator< int > >", "fixed"),
    "alloc_void": ("lf::allocator< std::allocator< void > >", "fixed"),
    "alloc_user": ("lf::allocator< MinAlloc< char > >", "fixed"),
}

TYPES = {"queue": ("int", "void*", "Pod", "Ctor", "Wide"), "stack": ("int", "void*", "Pod", "Ctor", "Full", "Wide"), "spsc_queue": ("int", "void*", "Pod", "Ctor", "Full", "Wide")}

# operation -> body; Q the container type, T the element type, q a container
COMMON = {
    "typedefs": "typename_( Q::value_type )* a = (T*)0; Q::allocator* b = 0; Q::size_type c = 0; (void)a; (void)b; (void)c;",
    "is_lock_free": "Q const& k = q; (void)bool( k.is_lock_free() );",
    "push": "T const t = T(); bool r = q.push( t ); (void)r;",
    "push_rvalue": "bool r = q.push( T() ); (void)r;",
    "pop": "T t = T(); bool r = q.pop( t ); (void)r;",
    "pop_conv": "FromAny t; bool r = q.pop( t ); (void)r;",
    "consume_one": "F f; bool r = q.consume_one( f ); (void)r;",
    "consume_one_temp": "bool r = q.consume_one( FC() ); (void)r;",
    "consume_one_const": "FC const f = FC(); bool r = q.consume_one( f ); (void)r;",
    "consume_one_lambda": "int n = 0; bool r = q.consume_one( [&]( T const& ) { ++n; } ); (void)r;",
    "consume_one_byval": "int n = 0; bool r = q.consume_one( [&]( T ) { ++n; } ); (void)r;",
    "consume_one_fn": "bool r = q.consume_one( fun< T > ); (void)r;",
    "consume_all": "F f; std::size_t r = q.consume_all( f ); (void)r;",
    "consume_all_temp": "std::size_t r = q.consume_all( FC() ); (void)r;",
    "consume_all_const": "FC const f = FC(); std::size_t r = q.consume_all( f ); (void)r;",
    "consume_all_lambda": "int n = 0; std::size_t r = q.consume_all( [&]( T const& ) { ++n; } ); (void)r;",
}
NODE = {
    "empty": "Q const& k = q; (void)bool( k.empty() );",
    "bounded_push": "T const t = T(); bool r = q.bounded_push( t ); (void)r;",
    "unsynchronized_push": "T const t = T(); bool r = q.unsynchronized_push( t ); (void)r;",
    "unsynchronized_pop": "T t = T(); bool r = q.unsynchronized_pop( t ); (void)r;",
    "unsynchronized_pop_conv": "FromAny t; bool r = q.unsynchronized_pop( t ); (void)r;",
}
QUEUE = {
    "pop_explicit": "Explicitly t; bool r = q.pop( t ); (void)r;",
    "unsynchronized_pop_explicit": "Explicitly t; bool r = q.unsynchronized_pop( t ); (void)r;",
}
STACK = {
    "push_range": "T const* b = 0; T const* r = q.push( b, b ); (void)r;",
    "push_range_vector": "std::vector< T > v; std::vector< T >::iterator r = q.push( v.begin(), v.end() ); (void)r;",
    "push_range_list": "std::list< T > v; std::list< T >::const_iterator b = v.begin(), e = v.end(); b = q.push( b, e );",
    "push_range_lvalues": "T const* b = 0; T const* e = 0; b = q.push( b, e );",
    "push_range_forward": "FwdIt< T > b; FwdIt< T > e; b = q.push( b, e );",
    "bounded_push_range_forward": "FwdIt< T > b; FwdIt< T > e; b = q.bounded_push( b, e );",
    "unsynchronized_push_range_forward": "FwdIt< T > b; FwdIt< T > e; b = q.unsynchronized_push( b, e );",
    "bounded_push_range": "std::list< T > v; std::list< T >::iterator r = q.bounded_push( v.begin(), v.end() ); (void)r;",
    "unsynchronized_push_range": "std::vector< T > v; std::vector< T >::iterator r = q.unsynchronized_push( v.begin(), v.end() ); (void)r;",
    "consume_all_atomic": "F f; std::size_t r = q.consume_all_atomic( f ); (void)r;",
    "consume_all_atomic_const": "FC const f = FC(); std::size_t r = q.consume_all_atomic( f ); (void)r;",
    "consume_all_atomic_lambda": "int n = 0; std::size_t r = q.consume_all_atomic( [&]( T const& ) { ++n; } ); (void)r;",
    "consume_all_atomic_reversed": "F f; std::size_t r = q.consume_all_atomic_reversed( f ); (void)r;",
    "consume_all_atomic_reversed_const": "FC const f = FC(); std::size_t r = q.consume_all_atomic_reversed( f ); (void)r;",
    "consume_all_atomic_reversed_lambda": "int n = 0; std::size_t r = q.consume_all_atomic_reversed( [&]( T const& ) { ++n; } ); (void)r;",
}
SPSC = {
    "pop_discard": "bool r = q.pop(); (void)r;",
    "push_array": "T const* b = 0; std::size_t r = q.push( b, 3 ); (void)r;",
    "push_array_mutable": "T* b = 0; std::size_t r = q.push( b, 3 ); (void)r;",
    "push_carray": "T const b[ 3 ] = {}; std::size_t r = q.push( b ); (void)r;",
    "push_carray_mutable": "T b[ 3 ] = {}; std::size_t r = q.push( b ); (void)r;",
    "push_range": "T const* b = 0; T const* r = q.push( b, b ); (void)r;",
    "push_range_vector": "std::vector< T > v; std::vector< T >::iterator r = q.push( v.begin(), v.end() ); (void)r;",
    "push_range_list": "std::list< T > v; std::list< T >::const_iterator b = v.begin(), e = v.end(); b = q.push( b, e );",
    "pop_array": "T* b = 0; std::size_t r = q.pop( b, 3 ); (void)r;",
    "pop_carray": "T b[ 3 ]; std::size_t r = q.pop( b ); (void)r;",
    "pop_iterator": "std::vector< T > v; std::size_t r = q.pop( std::back_inserter( v ) ); (void)r;",
    "pop_iterator_conv": "std::vector< FromAny > v( 3 ); std::size_t r = q.pop( v.begin() ); (void)r;",
    "pop_iterator_lvalue": "std::vector< T > v; std::back_insert_iterator< std::vector< T > > o( v ); std::size_t r = q.pop( o ); (void)r;",
    "pop_pointer_lvalue": "T* o = 0; std::size_t r = q.pop( o ); (void)r;",
    "pop_iterator_const": "std::vector< T > v; std::back_insert_iterator< std::vector< T > > const o( v ); std::size_t r = q.pop( o ); (void)r;",
    "pop_iterator_temp": "std::size_t r = q.pop( std::list< T >().begin() ); (void)r;",
    "push_range_lvalues": "T const* b = 0; T const* e = 0; b = q.push( b, e );",
    "push_range_forward": "FwdIt< T > b; FwdIt< T > e; b = q.push( b, e );",
    "read_available": "Q const& k = q; std::size_t r = k.read_available(); (void)r;",
    "write_available": "Q const& k = q; std::size_t r = k.write_available(); (void)r;",
    "front": "T& r = q.front(); (void)r;",
    "front_const": "Q const& k = q; T const& r = k.front(); (void)r;",
    "reset": "q.reset();",
    "consume_one_mutable": "FM f; bool r = q.consume_one( f ); (void)r;",
    "consume_all_mutable": "FM f; std::size_t r = q.consume_all( f ); (void)r;",
    "consume_all_mutable_const": "FMC const f = FMC(); std::size_t r = q.consume_all( f ); (void)r;",
}
SIZED = {
    "ctor": "Q* p = new Q( 16 ); delete p;",
    "ctor_alloc": "Q::allocator a; Q* p = new Q( 16, a ); delete p;",
    "ctor_rebound": "typedef Q::allocator A; A a; Q p( 16u, a );",
}
GROWING = {"reserve": "q.reserve( 3 );", "reserve_unsafe": "q.reserve_unsafe( 3 );"}
CT = {
    "ctor": "Q* p = new Q; delete p;",
    "ctor_value": "Q* p = new Q(); delete p;",
    "ctor_alloc": "Q::allocator a; Q* p = new Q( a ); delete p;",
}


def accept_cases(kind):
    """[(id, line)]"""
    out = []
    n = 0
    confs = RING_CONFIGS if kind == "spsc_queue" else NODE_CONFIGS
    for cname, (pol, storage) in confs.items():
        for t in TYPES[kind]:
            ops = dict(COMMON)
            if kind == "spsc_queue":
                ops.update(SPSC)
            else:
                ops.update(NODE)
                ops.update(QUEUE if kind == "queue" else STACK)
            if storage == "ct":
                new = CT
            else:
                new = dict(SIZED)
                if storage == "grow":
                    new.update(GROWING)
            ops.update(new)
            n += 1
            out.append((None, "namespace n%d { typedef %s T; typedef lf::%s< T%s > Q; }" % (n, t, kind, ", " + pol if pol else "")))
            for op, body in ops.items():
                body = body.replace("typename_( Q::value_type )", "Q::value_type")
                out.append(("%s<%s%s>: %s" % (kind, t, ", " + pol.replace("lf::", "").replace(" ", "") if pol else "", op),
                            "namespace n%d { void op_%s( Q& q ) { (void)q; %s } }" % (n, op, body)))
    return out


def _r(name, kind, good, bad):
    return (name, kind, good, bad)


REJECT = [
    _r("an element with a destructor of its own in a queue", "queue", "lf::queue< Pod > q( 3 );", "lf::queue< Dtor > q( 3 );"),
    _r("an element with a destructor of its own in a capacity<> queue", "queue", "lf::queue< Pod, lf::capacity< 3 > > q;", "lf::queue< Dtor, lf::capacity< 3 > > q;"),
    _r("std::string in a queue", "queue", "lf::queue< char const* > q( 3 );", "lf::queue< std::string > q( 3 );"),
    _r("an element with an assignment of its own in a queue", "queue", "lf::queue< Pod > q( 3 );", "lf::queue< Assign > q( 3 );"),
    _r("an element with an assignment of its own in a fixed_sized queue", "queue", "lf::queue< Pod, lf::fixed_sized< true > > q( 3 );", "lf::queue< Assign, lf::fixed_sized< true > > q( 3 );"),
    _r("pushing an element that cannot be copied (queue)", "queue", "void f( lf::queue< Pod >& q, Pod const& x ) { q.push( x ); }", "void f( lf::queue< NoCopy >& q, NoCopy const& x ) { q.push( x ); }"),
    _r("an element that cannot be copied in a stack", "stack", "lf::stack< Pod > q( 3 );", "lf::stack< NoCopy > q( 3 );"),
    _r("an element that cannot be copied in a capacity<> stack", "stack", "lf::stack< Pod, lf::capacity< 3 > > q;", "lf::stack< NoCopy, lf::capacity< 3 > > q;"),
    _r("std::unique_ptr in a stack", "stack", "lf::stack< std::shared_ptr< int > > q( 3 );", "lf::stack< std::unique_ptr< int > > q( 3 );"),
    _r("pushing an element that cannot be copied (spsc_queue)", "spsc_queue", "void f( lf::spsc_queue< Pod >& q, Pod const& x ) { q.push( x ); }", "void f( lf::spsc_queue< NoCopy >& q, NoCopy const& x ) { q.push( x ); }"),
    _r("capacity<65535> queue", "queue", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::queue< int, lf::capacity< 65534 > > ); }", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::queue< int, lf::capacity< 65535 > > ); }"),
    _r("capacity<65536> queue", "queue", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::queue< int, lf::capacity< 4000 > > ); }", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::queue< int, lf::capacity< 65536 > > ); }"),
    _r("capacity<100000> queue", "queue", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::queue< char, lf::capacity< 10000 > > ); }", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::queue< char, lf::capacity< 100000 > > ); }"),
    _r("capacity<65536> stack", "stack", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::stack< int, lf::capacity< 65535 > > ); }", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::stack< int, lf::capacity< 65536 > > ); }"),
    _r("capacity<131072> stack", "stack", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::stack< char, lf::capacity< 13107 > > ); }", "auto f() -> decltype( sizeof( 1 ) ) { return sizeof( lf::stack< char, lf::capacity< 131072 > > ); }"),
    _r("capacity<0> stack", "stack", "lf::stack< int, lf::capacity< 1 > > q;", "lf::stack< int, lf::capacity< 0 > > q;"),
    _r("an unknown policy of queue", "queue", "lf::queue< int, lf::fixed_sized< true > > q( 3 );", "lf::queue< int, int > q( 3 );"),
    _r("an unknown policy of stack", "stack", "lf::stack< int, lf::fixed_sized< true > > q( 3 );", "lf::stack< int, int > q( 3 );"),
    _r("an unknown policy of spsc_queue", "spsc_queue", "lf::spsc_queue< int, lf::allocator< std::allocator< int > > > q( 3 );", "lf::spsc_queue< int, int > q( 3 );"),
    _r("two capacities (queue)", "queue", "lf::queue< int, lf::capacity< 3 > > q;", "lf::queue< int, lf::capacity< 3 >, lf::capacity< 4 > > q;"),
    _r("two capacities (stack)", "stack", "lf::stack< int, lf::capacity< 3 > > q;", "lf::stack< int, lf::capacity< 3 >, lf::capacity< 4 > > q;"),
    _r("an allocator for a capacity<> spsc_queue", "spsc_queue", "lf::spsc_queue< int, lf::allocator< std::allocator< int > > > q( 3 );", "lf::spsc_queue< int, lf::capacity< 3 >, lf::allocator< std::allocator< int > > > q;"),
    _r("a size and an allocator for a capacity<> queue", "queue", "typedef lf::queue< int > Q; void f( Q::allocator a ) { Q q( 3, a ); }", "typedef lf::queue< int, lf::capacity< 3 > > Q; void f( Q::allocator a ) { Q q( 3, a ); }"),
    _r("a size and an allocator for a capacity<> stack", "stack", "typedef lf::stack< int > Q; void f( Q::allocator a ) { Q q( 3, a ); }", "typedef lf::stack< int, lf::capacity< 3 > > Q; void f( Q::allocator a ) { Q q( 3, a ); }"),
    _r("a size for a capacity<> spsc_queue", "spsc_queue", "lf::spsc_queue< int > q( 3 );", "lf::spsc_queue< int, lf::capacity< 3 > > q( 3 );"),
    _r("a size and an allocator for a capacity<> spsc_queue", "spsc_queue", "typedef lf::spsc_queue< int > Q; void f( Q::allocator a ) { Q q( 3, a ); }", "typedef lf::spsc_queue< int, lf::capacity< 3 > > Q; void f( Q::allocator a ) { Q q( 3, a ); }"),
    _r("no size for a run-time sized spsc_queue", "spsc_queue", "lf::spsc_queue< int, lf::capacity< 3 > > q;", "lf::spsc_queue< int > q;"),
    _r("only an allocator for a run-time sized spsc_queue", "spsc_queue", "typedef lf::spsc_queue< int, lf::capacity< 3 > > Q; void f( Q::allocator a ) { Q q( a ); }", "typedef lf::spsc_queue< int > Q; void f( Q::allocator a ) { Q q( a ); }"),
    _r("the element type used for pop has no conversion (stack)", "stack", "bool f( lf::stack< int >& q, long& x ) { return q.pop( x ); }", "bool f( lf::stack< int >& q, Unrelated& x ) { return q.pop( x ); }"),
    _r("the element type used for unsynchronized_pop has no conversion (stack)", "stack", "bool f( lf::stack< int >& q, long& x ) { return q.unsynchronized_pop( x ); }", "bool f( lf::stack< int >& q, Unrelated& x ) { return q.unsynchronized_pop( x ); }"),
    _r("the element type used for pop has no conversion (queue)", "queue", "bool f( lf::queue< int >& q, long& x ) { return q.pop( x ); }", "bool f( lf::queue< int >& q, Unrelated& x ) { return q.pop( x ); }"),
    _r("the element type used for pop has no conversion (spsc_queue)", "spsc_queue", "bool f( lf::spsc_queue< int >& q, long& x ) { return q.pop( x ); }", "bool f( lf::spsc_queue< int >& q, Unrelated& x ) { return q.pop( x ); }"),
    _r("pushing something that is no element (queue)", "queue", "void f( lf::queue< long >& q, int x ) { q.push( x ); }", "void f( lf::queue< long >& q, Unrelated x ) { q.push( x ); }"),
    _r("pushing something that is no element (stack)", "stack", "void f( lf::stack< long >& q, int x ) { q.push( x ); }", "void f( lf::stack< long >& q, Unrelated x ) { q.push( x ); }"),
    _r("pushing something that is no element (spsc_queue)", "spsc_queue", "void f( lf::spsc_queue< long >& q, int x ) { q.push( x ); }", "void f( lf::spsc_queue< long >& q, Unrelated x ) { q.push( x ); }"),
]
for k in ("queue", "stack", "spsc_queue"):
    for pol, what in (("", ""), (", lf::capacity< 3 >", "capacity<> ")) + ((("", "", ),) if 0 else ()):
        t = "typedef lf::%s< int%s > Q; " % (k, pol)
        REJECT += [
            _r("copying a %s%s" % (what, k), k, t + "Q& f( Q& a ) { Q& b( a ); return b; }", t + "void f( Q& a ) { Q b( a ); }"),
            _r("copying a const %s%s" % (what, k), k, t + "Q const& f( Q const& a ) { Q const& b( a ); return b; }", t + "void f( Q const& a ) { Q b( a ); }"),
            _r("moving a %s%s" % (what, k), k, t + "Q& f( Q& a ) { Q& b( a ); return b; }", t + "void f( Q& a ) { Q b( std::move( a ) ); }"),
            _r("assigning a %s%s" % (what, k), k, t + "bool f( Q& a, Q& b ) { return &a == &b; }", t + "void f( Q& a, Q& b ) { a = b; }"),
            _r("move-assigning a %s%s" % (what, k), k, t + "bool f( Q& a, Q& b ) { return &a == &b; }", t + "void f( Q& a, Q& b ) { a = std::move( b ); }"),
            _r("popping from a const %s%s" % (what, k), k, t + "bool f( Q& a, int& b ) { return a.pop( b ); }", t + "bool f( Q const& a, int& b ) { return a.pop( b ); }"),
            _r("pushing to a const %s%s" % (what, k), k, t + "bool f( Q& a, int b ) { return a.push( b ); }", t + "bool f( Q const& a, int b ) { return a.push( b ); }"),
            _r("consuming from a const %s%s" % (what, k), k, t + "void f( Q& a ) { a.consume_all( FC() ); }", t + "void f( Q const& a ) { a.consume_all( FC() ); }"),
            _r("a functor that cannot take the element (%s%s)" % (what, k), k, t + "void f( Q& a ) { a.consume_one( []( int ) {} ); }", t + "void f( Q& a ) { a.consume_one( []( Unrelated ) {} ); }"),
        ]
    REJECT.append(_r("a number that converts to a %s implicitly" % k, k, "lf::%s< int > q( 3 );" % k, "lf::%s< int > q = 3;" % k))
    if k != "spsc_queue":
        for pol, what in ((", lf::capacity< 3 >", "capacity<>"), (", lf::fixed_sized< true >", "fixed_sized")):
            for op in ("reserve", "reserve_unsafe"):
                REJECT.append(_r("%s on a %s %s" % (op, what, k), k, "void f( lf::%s< int >& q ) { q.%s( 3 ); }" % (k, op), "void f( lf::%s< int%s >& q ) { q.%s( 3 ); }" % (k, pol, op)))
    else:
        REJECT.append(_r("writing through front() of a const spsc_queue", k, "void f( lf::spsc_queue< int >& q ) { q.front() = 3; }", "void f( lf::spsc_queue< int > const& q ) { q.front() = 3; }"))


def compiler(cc, std, extra=()):
    return [cc, "-std=" + std, "-w", "-fsyntax-only", "-I" + build.INC] + list(extra)


def pch(std, tmp):
    """the prelude, parsed once"""
    h = os.path.join(tmp, "prelude_%s.hpp" % std[-2:])
    with open(h, "w") as f:
        f.write(PRELUDE)
    r = build.sh(["clang++", "-std=" + std, "-w", "-I" + build.INC, "-x", "c++-header", h, "-o", h + ".pch"])
    if r.returncode:
        raise build.BuildError("the public headers do not compile: " + build.first_error(r.stderr))
    return h + ".pch"


def compile_text(cmd, path, text):
    with open(path, "w") as f:
        f.write(text)
    return build.sh(cmd + [path])


def errors_by_line(err, path, lines):
    """{line of the client program: (first error, its place)}"""
    base = os.path.basename(path)
    out = {}
    cur = None
    head = None
    pend = []
    for l in err.split("\n"):
        m = re.match(r"(.*?):(\d+):(?:\d+:)? +(?:(fatal error|error|note|warning): |required from|  *required)", l)
        if not m:
            if re.search(r"In (instantiation|function|member function|static member function|constructor|substitution)", l):
                pend = []
            continue
        f, n, k = os.path.basename(m.group(1)), int(m.group(2)), m.group(3)
        if k in ("error", "fatal error"):
            head = (l.split("error: ", 1)[1][:200], "%s:%d" % (m.group(1), n))
            cur = None
            if f == base:
                cur = n
            elif pend:
                cur = pend[-1]
            if cur is not None and cur in lines:
                out.setdefault(cur, head)
            pend = []
        elif k == "note" and head is not None and cur is None and f == base and n in lines:
            cur = n
            out.setdefault(cur, head)
        elif k is None and f == base:
            pend.append(n)
    return out


def run_accept(arg):
    kind, cc, std, extra, tmp = arg
    name = "%s %s %s %s" % (kind, cc, std, " ".join(extra))
    res = empty_result(name.strip(), kind)
    cases = accept_cases(kind)
    text = PRELUDE
    first = text.count("\n") + 1
    where = {}
    for i, (cid, line) in enumerate(cases):
        where[first + i] = cid
        text += line + "\n"
    path = os.path.join(tmp, re.sub(r"\W", "_", name) + ".cpp")
    r = compile_text(compiler(cc, std, ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] + list(extra) if cc == "clang++" else ["-fmax-errors=0", "-ftemplate-backtrace-limit=0"] + list(extra)), path, text)
    n = sum(1 for c in cases if c[0])
    res["functions"] = n
    for cid, _ in cases:
        if cid:
            res["obl"]["accepts|%s|%s" % (cid, "")] = 1
    if r.returncode:
        bad = errors_by_line(r.stderr, path, where)
        if not bad:
            e = build.first_error(r.stderr)
            res["findings"].append(finding("accepts", "a program with every documented operation of %s does not compile: %s" % (kind, e[:200]), "", "api", name, kind))
        for ln, (msg, at) in sorted(bad.items()):
            cid = where[ln] or cases[ln - first][1]
            res["findings"].append(finding("accepts", "%s does not compile: %s" % (cid, msg), short(at), cid, name, kind))
    return res


def run_reject(arg):
    idx, std, tmp, pre = arg
    cc = "clang++"
    cmd = compiler(cc, std, ["-include-pch", pre])
    name, kind, good, bad = REJECT[idx]
    res = empty_result("misuse %s %s" % (cc, std), "api")
    res["functions"] = 2
    base = os.path.join(tmp, "rej%d_%s_%s" % (idx, cc[:2], std[-2:]))
    g = compile_text(cmd, base + "g.cpp", good + "\n")
    res["obl"]["accepts-twin|%s|%s" % (name, "")] = 1
    if g.returncode:
        res["findings"].append(finding("accepts-twin", "the permitted counterpart of '%s' does not compile: %s" % (name, build.first_error(g.stderr)[:220]), "", good, res["name"], kind))
        return res
    b = compile_text(cmd, base + "b.cpp", bad + "\n")
    res["obl"]["rejects|%s|%s" % (name, "")] = 1
    if b.returncode == 0:
        res["findings"].append(finding("rejects", "a program that must not compile is accepted: %s: %s" % (name, bad), "include/boost/lockfree/%s.hpp" % kind, bad, res["name"], kind))
    return res


def run_headers(arg):
    """each public header on its own, and no header defines anything that would clash between translation units"""
    hdr, cc, std, tmp = arg
    res = empty_result("header %s %s %s" % (hdr, cc, std), "api")
    res["functions"] = 1
    path = os.path.join(tmp, "hdr_%s_%s_%s.cpp" % (hdr, cc[:2], std[-2:]))
    text = "#include <boost/lockfree/%s.hpp>\n#include <boost/lockfree/%s.hpp>\n" % (hdr, hdr)
    res["obl"]["accepts|#include <boost/lockfree/%s.hpp>|" % hdr] = 1
    r = compile_text(compiler(cc, std), path, text)
    if r.returncode:
        res["findings"].append(finding("accepts", "boost/lockfree/%s.hpp does not compile on its own: %s" % (hdr, build.first_error(r.stderr)[:220]), "include/boost/lockfree/%s.hpp" % hdr, hdr, res["name"], "api"))
        return res
    if cc == "clang++":
        ll = path[:-4] + ".ll"
        r = build.sh([cc, "-std=" + std, "-w", "-S", "-emit-llvm", "-I" + build.INC, path, "-o", ll])
        if r.returncode == 0:
            res["obl"]["no-strong-definition|%s|" % hdr] = 1
            for l in open(ll):
                m = re.match(r"define (?!linkonce|internal|weak|available|private)[^@]*@(\S+?)\(", l) or re.match(r"@(\S+) = (?:dso_local )?(?:global|constant) ", l)
                if m and "lockfree" in m.group(1):
                    res["findings"].append(finding("no-strong-definition", "boost/lockfree/%s.hpp defines %s, which clashes when two translation units include it" % (hdr, m.group(1)), "include/boost/lockfree/%s.hpp" % hdr, hdr, res["name"], "api"))
            os.unlink(ll)
    return res


def short(p):
    i = p.find("/include/boost/lockfree/")
    return p[i + 1:] if i >= 0 else p


def empty_result(name, kind):
    return {"name": name, "kind": kind, "entries": [], "findings": [], "obl": {}, "dropped": [], "error": None, "functions": 0, "steps": 0, "segs": 0, "paths": 0, "wall": 0}


def finding(rule, msg, loc, fn, config, kind):
    return {"rule": rule, "msg": msg, "loc": loc, "fn": fn, "config": config, "kind": kind}
