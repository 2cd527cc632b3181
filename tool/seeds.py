Q = "queue.hpp"; S = "stack.hpp"; F = "detail/freelist.hpp"; P = "spsc_queue.hpp"
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <memory>
#include <vector>
#include <iterator>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
'''

OLDTOS = "            tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );\n"
seed("c05-reversed-keeps-tag", "C05",
     [(S, OLDTOS, OLDTOS.replace("get_next_tag", "get_tag"))], nth={OLDTOS: 2},
     needs="a pop that has read the top and its successor, then a consume_all_atomic_reversed and a push that reuses the same top node before the pop's compare-and-swap",
     breaks="consume_all_atomic_reversed empties the stack without changing the version tag: a stale pop succeeds and re-links a free node",
     shim=True, demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
int main()
{
    boost::lockfree::stack< int, boost::lockfree::capacity< 4 > > s;
    s.push( 1 );
    s.push( 2 );
    bool done = false;
    shim::before() = [&]( shim::op_kind k, void const* ) {
        if ( k != shim::op_cas || done ) return;
        done = true;
        int n = 0;
        auto f = [&]( int ) { ++n; };
        CHECK( s.consume_all_atomic_reversed( f ) == 2 && n == 2 );
        CHECK( s.push( 3 ) );
    };
    int x = 0;
    CHECK( s.pop( x ) && done );
    shim::before() = nullptr;
    CHECK( x == 3 );
    CHECK( s.empty() );
    for ( int i = 0; i != 4; ++i ) CHECK( s.push( i ) );
    CHECK( !s.push( 9 ) );
    for ( int i = 3; i >= 0; --i ) CHECK( s.pop( x ) && x == i );
    CHECK( !s.pop( x ) );
}
''')

seed("c05-pool-index-tag", "C05",
     [(F, "tagged_index new_pool( next->index, old_pool.get_next_tag() );\n\n            if ( pool_.compare", "tagged_index new_pool( next->index, old_pool.get_tag() );\n\n            if ( pool_.compare")]
     if False else [(F, None, None)],
     needs="", breaks="", demo="")
SEEDS.pop()

seed("c01-push-unvalidated-tail", "C01",
     [(Q, "            if ( BOOST_LIKELY( tail == tail2 ) ) {\n                if ( next_ptr == 0 ) {",
       "            if ( BOOST_LIKELY( tail == tail2 || next_ptr == 0 ) ) {\n                if ( next_ptr == 0 ) {")],
     needs="a push that has read the tail, whose node is then dequeued and put on an empty free list before the push reads its link",
     breaks="the push links its node behind a node that has left the queue: the push reports success but the element is lost",
     shim=True, demo=HEAD + r'''
#include <boost/lockfree/queue.hpp>
int main()
{
    boost::lockfree::queue< int, boost::lockfree::capacity< 2 > > q;
    int  step = 0;
    bool armed = false, done = false;
    int  loads = 0, x = 0, got = 0;
    void const* first = nullptr;
    shim::before() = [&]( shim::op_kind k, void const* a ) {
        if ( !armed || done ) return;
        if ( k != shim::op_load ) { loads = 0; return; }
        // the operations of push: pool ..., tail, next, tail
        if ( ++loads == 2 && a != (void const*)&q ) {
            done = true;
            CHECK( q.push( 5 ) );
            CHECK( q.pop( got ) && got == 5 );
        }
    };
    // try each position of the interference
    armed = true;
    CHECK( q.push( 7 ) );
    armed = false;
    shim::before() = nullptr;
    CHECK( q.pop( x ) && x == 7 );
    CHECK( !q.pop( x ) );
    CHECK( q.push( 1 ) && q.push( 2 ) && !q.push( 3 ) );
    CHECK( q.pop( x ) && x == 1 && q.pop( x ) && x == 2 && !q.pop( x ) );
}
''')

seed("c22-range-catch-keeps-first", "C22",
     [(S, "current_node = new_top_node; current_node != NULL; ) {", "current_node = new_top_node; current_node != end_node; ) {")],
     needs="a range push in which copying the third or a later element throws",
     breaks="the node constructed first is leaked: its element is never destroyed and the capacity shrinks",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
static int live = 0;
struct E
{
    int v;
    E( int v = 0 ) : v( v ) { ++live; }
    E( E const& o ) : v( o.v ) { if ( v == 3 ) throw 1; ++live; }
    E& operator=( E const& ) = default;
    ~E() { --live; }
};
int main()
{
    boost::lockfree::stack< E, boost::lockfree::capacity< 5 > > s;
    E a[ 4 ] = { 1, 2, 3, 4 };
    for ( int i = 0; i != 3; ++i ) {
        bool caught = false;
        try { s.push( a, a + 4 ); } catch ( int ) { caught = true; }
        CHECK( caught && s.empty() && live == 4 );
    }
    int n = 0;
    while ( s.push( a[ 0 ] ) ) ++n;
    CHECK( n == 5 );
}
''')

seed("c10-upop-destroy-first", "C10",
     [(S, "        tos.store( new_tos, memory_order_relaxed );\n        detail::copy_payload( old_tos_pointer->v, ret );\n        pool.template destruct< false >( old_tos );\n        return true;",
       "        tos.store( new_tos, memory_order_relaxed );\n        pool.template destruct< false >( old_tos );\n        detail::copy_payload( old_tos_pointer->v, ret );\n        return true;")],
     needs="unsynchronized_pop of an element type whose destructor ends the value",
     breaks="the element is destroyed and its node released before the value is copied out",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
struct E
{
    int v;
    E( int v = 0 ) : v( v ) {}
    E( E const& o ) : v( o.v ) {}
    E& operator=( E const& o ) { v = o.v; return *this; }
    ~E() { *(int volatile*)&v = -1; }
};
int main()
{
    boost::lockfree::stack< E > s( 3 );
    s.push( 1 );
    s.push( 2 );
    E x;
    CHECK( s.unsynchronized_pop( x ) && x.v == 2 );
    CHECK( s.unsynchronized_pop( x ) && x.v == 1 );
    CHECK( !s.unsynchronized_pop( x ) );
}
''')

seed("c07-alloc-ctor-one-short", "C07",
     [(Q, "    queue( size_type n, allocator const& alloc ) :\n        head_( tagged_node_handle( 0, 0 ) ),\n        tail_( tagged_node_handle( 0, 0 ) ),\n        pool( alloc, n + 1 )",
       "    queue( size_type n, allocator const& alloc ) :\n        head_( tagged_node_handle( 0, 0 ) ),\n        tail_( tagged_node_handle( 0, 0 ) ),\n        pool( alloc, n )")],
     needs="a queue constructed from a size and an allocator, filled by bounded pushes",
     breaks="the sentinel node is not accounted for: the container holds one element fewer than asked for",
     demo=HEAD + r'''
#include <boost/lockfree/queue.hpp>
template < class Q > void check( int n )
{
    typename Q::allocator a;
    Q q( n, a );
    for ( int i = 0; i != n; ++i ) CHECK( q.bounded_push( i ) );
    CHECK( !q.bounded_push( 0 ) );
}
int main()
{
    for ( int n = 1; n != 20; ++n ) {
        check< boost::lockfree::queue< int > >( n );
        check< boost::lockfree::queue< int, boost::lockfree::fixed_sized< true > > >( n );
    }
}
''')

seed("c04-stack-publish-acquire", "C04",
     [(S, "            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;\n        }\n    }\n\n    void link_nodes_unsafe",
       "            if ( tos.compare_exchange_weak( old_tos, new_tos, memory_order_acquire, memory_order_relaxed ) )\n                break;\n        }\n    }\n\n    void link_nodes_unsafe")],
     needs="two threads and a weakly ordered machine (or a race detector that follows the C++ memory model)",
     breaks="the compare-and-swap that publishes a pushed node no longer has release semantics: the popping thread may see an unwritten element",
     flags="-fsanitize=thread", demo=HEAD + r'''
#include <thread>
#include <boost/lockfree/stack.hpp>
int main()
{
    boost::lockfree::stack< long > s( 128 );
    std::thread p( [&] { for ( long i = 1; i != 2000; ++i ) s.push( i ); } );
    long n = 0, x;
    while ( n != 1999 ) if ( s.pop( x ) ) { ++n; CHECK( x > 0 ); }
    p.join();
}
''')

seed("c06-bounded-range-grows", "C06",
     [(S, "node* newnode = pool.template construct< Threadsafe, Bounded >( *it );", "node* newnode = pool.template construct< Threadsafe, false >( *it );")],
     needs="a bounded range push on a growing stack whose pool runs out after the first element",
     breaks="bounded_push(range) allocates memory instead of stopping when the pool is exhausted",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
static int blocks = 0;
template < class T > struct A
{
    typedef T value_type;
    A() {}
    template < class U > A( A< U > const& ) {}
    template < class U > struct rebind { typedef A< U > other; };
    T* allocate( std::size_t n ) { ++blocks; return std::allocator< T >().allocate( n ); }
    void deallocate( T* p, std::size_t n ) { std::allocator< T >().deallocate( p, n ); }
    template < class U > bool operator==( A< U > const& ) const { return true; }
    template < class U > bool operator!=( A< U > const& ) const { return false; }
};
int main()
{
    boost::lockfree::stack< int, boost::lockfree::allocator< A< int > > > s( 3 );
    int v[ 6 ] = { 1, 2, 3, 4, 5, 6 }, before = blocks;
    CHECK( s.bounded_push( v, v + 6 ) == v + 3 );
    CHECK( blocks == before );
    int x;
    for ( int i = 3; i; --i ) CHECK( s.pop( x ) && x == i );
}
''')

seed("c14-push-does-not-help", "C14",
     [(Q, "                } else {\n                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n                }\n            }\n        }\n    }\n#endif",
       "                } else if ( Bounded ) {\n                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n                }\n            }\n        }\n    }\n#endif")],
     needs="a producer stalled between linking its node and advancing the tail while another thread pushes",
     breaks="push waits for the stalled producer instead of advancing the tail itself: the operation is no longer lock-free",
     shim=True, demo=HEAD + r'''
#include <boost/lockfree/queue.hpp>
int main()
{
    boost::lockfree::queue< int > q( 8 );
    int cas = 0;
    shim::before() = [&]( shim::op_kind k, void const* ) {
        if ( k != shim::op_cas ) return;
        if ( ++cas != 3 ) return; // free list, link, tail: the stalled producer has linked but not advanced the tail
        long ops = 0;
        shim::before() = [&]( shim::op_kind, void const* ) { CHECK( ++ops < 10000 ); };
        shim::busy() = true;
        for ( int i = 0; i != 1; ++i ) {
            // operations of the second producer are counted one by one
            struct unbusy { unbusy() { shim::busy() = false; } ~unbusy() { shim::busy() = true; } } u;
            CHECK( q.push( 2 ) );
        }
        shim::before() = []( shim::op_kind, void const* ) {};
    };
    CHECK( q.push( 1 ) );
    shim::before() = nullptr;
    int x;
    CHECK( q.pop( x ) && x == 1 && q.pop( x ) && x == 2 && !q.pop( x ) );
}
''')

seed("c23-ctor-drops-allocator", "C23",
     [(S, "    stack( size_type n, node_allocator const& alloc ) :\n        pool( alloc, n )", "    stack( size_type n, node_allocator const& alloc ) :\n        pool( node_allocator( fixed_sized ? alloc : node_allocator() ), n )")]
     if False else [(S, "    explicit stack( allocator const& alloc ) :\n        pool( alloc, capacity )", "    explicit stack( allocator const& alloc ) :\n        pool( alloc, capacity )")],
     needs="", breaks="", demo="")
SEEDS.pop()

ALLOC = r'''
static long blocks = 0, balance = 0;
static bool exact = true;
#include <map>
static std::map< void*, std::size_t >& book() { static std::map< void*, std::size_t > m; return m; }
template < class T > struct A
{
    typedef T value_type;
    A() {}
    template < class U > A( A< U > const& ) {}
    template < class U > struct rebind { typedef A< U > other; };
    T* allocate( std::size_t n ) { ++blocks; ++balance; T* p = std::allocator< T >().allocate( n ); book()[ p ] = n * sizeof( T ); return p; }
    void deallocate( T* p, std::size_t n )
    {
        --balance;
        if ( book()[ p ] != n * sizeof( T ) ) exact = false;
        book().erase( p );
        ::operator delete( (void*)p );
    }
    template < class U > bool operator==( A< U > const& ) const { return true; }
    template < class U > bool operator!=( A< U > const& ) const { return false; }
};
'''

RPUSH = "        const size_t write_index = write_index_.load( memory_order_relaxed ); // only written from push thread\n        const size_t read_index  = read_index_.load( memory_order_acquire );\n"
seed("c04-ring-range-push-relaxed", "C04",
     [(P, RPUSH, RPUSH.replace("acquire", "relaxed"))],
     needs="a producer that pushes ranges and a consumer, on a weakly ordered machine (or a race detector that follows the C++ memory model)",
     breaks="the range push reads the consumer's index without acquire: it may overwrite a slot the consumer is still reading",
     flags="-fsanitize=thread", demo=HEAD + r'''
#include <thread>
#include <boost/lockfree/spsc_queue.hpp>
int main()
{
    boost::lockfree::spsc_queue< long, boost::lockfree::capacity< 5 > > q;
    std::thread p( [&] {
        for ( long i = 0; i < 3000; ) {
            long a[ 3 ] = { i, i + 1, i + 2 };
            i += q.push( a, 3 );
        }
    } );
    for ( long i = 0; i < 3000; ) {
        long x;
        if ( q.pop( x ) ) { CHECK( x == i ); ++i; }
    }
    p.join();
}
''')

CONE = "        T& object_to_consume = buffer[ read_index ];\n        functor( object_to_consume );\n        object_to_consume.~T();\n\n        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release );\n"
seed("c11-ring-consume-const-early", "C11",
     [(P, CONE, "        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release );\n\n        T& object_to_consume = buffer[ read_index ];\n        functor( object_to_consume );\n        object_to_consume.~T();\n")], nth={CONE: 1},
     needs="consume_one with a const functor on a full ring, and a producer that pushes while the functor runs",
     breaks="the slot is given back before the functor has seen the element: the producer overwrites it under the functor's feet",
     demo=HEAD + r'''
#include <string>
#include <boost/lockfree/spsc_queue.hpp>
int main()
{
    boost::lockfree::spsc_queue< long, boost::lockfree::capacity< 2 > > q;
    CHECK( q.push( 1 ) && q.push( 2 ) && !q.push( 3 ) );
    bool seen = false;
    // the producer of this one-thread demonstration runs while the functor does
    auto const f = [&]( long const& x ) {
        CHECK( !q.push( 7 ) );
        CHECK( x == 1 );
        seen = true;
    };
    CHECK( q.consume_one( f ) && seen );
    CHECK( q.push( 8 ) );
    long x;
    CHECK( q.pop( x ) && x == 2 && q.pop( x ) && x == 8 && !q.pop( x ) );
}
''')

seed("c03-ring-iterator-not-advanced", "C03",
     [(P, "            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );", "            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );")],
     needs="pop(OutputIterator) with an iterator that has to be advanced (not an inserter), when the elements wrap around the end of the ring",
     breaks="the second section overwrites the first one in the output: elements are lost",
     demo=HEAD + r'''
#include <boost/lockfree/spsc_queue.hpp>
int main()
{
    for ( int start = 0; start != 6; ++start ) {
        boost::lockfree::spsc_queue< int, boost::lockfree::capacity< 5 > > q;
        for ( int i = 0; i != start; ++i ) CHECK( q.push( i ) && q.pop() );
        for ( int i = 0; i != 4; ++i ) CHECK( q.push( 10 + i ) );
        std::vector< int > v( 4, -1 );
        CHECK( q.pop( v.begin() ) == 4 );
        for ( int i = 0; i != 4; ++i ) CHECK( v[ i ] == 10 + i );
        CHECK( !q.pop() );
    }
}
''')

WRAP = "            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );\n\n            if ( new_read_index == max_size )\n                new_read_index = 0;\n"
seed("c13-ring-consume-all-boundary", "C13",
     [(P, WRAP, "            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );\n")], nth={WRAP: 1},
     needs="consume_all with a non-const functor when the last element lies in the ring's last slot",
     breaks="the read index becomes max_size, one past the last slot, instead of wrapping to zero",
     demo=HEAD + r'''
#include <boost/lockfree/spsc_queue.hpp>
struct F { int sum; void operator()( int x ) { sum += x; } };
int main()
{
    for ( int start = 0; start != 8; ++start )
        for ( int n = 1; n != 6; ++n ) {
            boost::lockfree::spsc_queue< int > q( 5 );
            for ( int i = 0; i != start; ++i ) CHECK( q.push( i ) && q.pop() );
            for ( int i = 0; i != n; ++i ) CHECK( q.push( 1 ) );
            F f = { 0 };
            CHECK( q.consume_all( f ) == (std::size_t)n && f.sum == n );
            CHECK( q.read_available() == 0 && q.write_available() == 5 );
            CHECK( q.push( 42 ) && q.read_available() == 1 && q.front() == 42 );
            int x;
            CHECK( q.pop( x ) && x == 42 );
        }
}
''')

seed("c10-ring-trait", "C10",
     [(P, "        if ( boost::has_trivial_destructor< T >::value ) {\n            return std::copy( first, last, out );", "        if ( __has_trivial_copy( T ) || boost::has_trivial_destructor< T >::value ) {\n            return std::copy( first, last, out );")],
     needs="an element type that is copied by its bytes but has a destructor of its own, removed by an array or iterator pop",
     breaks="elements removed by pop(T*, n) and pop(OutputIterator) are not destroyed",
     demo=HEAD + r'''
#include <boost/lockfree/spsc_queue.hpp>
static int dead = 0;
struct D { int v; ~D() { ++dead; } };
int main()
{
    boost::lockfree::spsc_queue< D > q( 4 );
    D a[ 2 ] = {}, b[ 2 ];
    CHECK( q.push( a, 2 ) == 2 );
    dead = 0;
    CHECK( q.pop( b, 2 ) == 2 );
    CHECK( dead == 2 );
}
''')

RD = "        Alloc& allocator = *this;\n        allocator_traits::deallocate( allocator, array_, max_elements_ );\n"
seed("c23-ring-dealloc-count", "C23",
     [(P, RD, RD.replace("max_elements_ )", "max_elements_ - 1 )"))],
     needs="a user allocator that relies on the element count it is given back (pool or sized delete)",
     breaks="the ring's buffer is returned to the allocator with a smaller count than it was obtained with",
     demo=HEAD + ALLOC + r'''
#include <boost/lockfree/spsc_queue.hpp>
int main()
{
    {
        boost::lockfree::spsc_queue< long, boost::lockfree::allocator< A< long > > > q( 7 );
        for ( long i = 0; i != 7; ++i ) CHECK( q.push( i ) );
        CHECK( !q.push( 7 ) );
    }
    CHECK( balance == 0 && blocks == 1 && exact );
}
''')

seed("c15-stack-ignores-pool", "C15",
     [(S, "return tos.is_lock_free() && pool.is_lock_free();", "return tos.is_lock_free();")],
     needs="an atomic implementation in which the free list's word is not lock-free",
     breaks="is_lock_free() returns true although push and pop go through a free list that is not lock-free",
     shim=True, demo=HEAD + r'''
#include <set>
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/queue.hpp>
template < class C > void check( C& c )
{
    std::set< void const* > used;
    char const *b = (char const*)&c, *e = b + sizeof( C );
    shim::before() = [&]( shim::op_kind k, void const* a ) { if ( k == shim::op_cas && a >= b && a < e ) used.insert( a ); };
    int x;
    for ( int i = 0; i != 3; ++i ) CHECK( c.push( i ) );
    for ( int i = 0; i != 3; ++i ) CHECK( c.pop( x ) );
    shim::before() = nullptr;
    CHECK( used.size() >= 2 );
    shim::lock_free() = []( void const* ) { return true; };
    CHECK( c.is_lock_free() );
    for ( void const* a : used ) {
        shim::lock_free() = [ a ]( void const* o ) { return o != a; };
        CHECK( !c.is_lock_free() );
    }
    shim::lock_free() = nullptr;
}
int main()
{
    boost::lockfree::stack< int > s( 8 );
    check( s );
}
''')

seed("c20-queue-pool-line", "C20",
     [(Q, "    char                         padding2[ padding_size ];\n", "")],
     needs="pushing and popping threads on different cores: the queue's tail and the free list's head lie on one cache line",
     breaks="every allocation of a node invalidates the line that holds the tail: head, tail and free list are not kept apart",
     shim=True, demo=HEAD + r'''
#include <set>
#include <boost/lockfree/queue.hpp>
template < class C > void check( C& c )
{
    std::set< std::uintptr_t > words, lines;
    char const *b = (char const*)&c, *e = b + sizeof( C );
    shim::before() = [&]( shim::op_kind k, void const* a ) { if ( k == shim::op_cas && a >= b && a < e ) words.insert( (std::uintptr_t)a ); };
    int x;
    for ( int i = 0; i != 3; ++i ) CHECK( c.push( i ) );
    for ( int i = 0; i != 3; ++i ) CHECK( c.pop( x ) );
    shim::before() = nullptr;
    CHECK( words.size() >= 3 );
    std::uintptr_t last = 0;
    for ( std::uintptr_t w : words ) { CHECK( last == 0 || w - last >= 64 ); last = w; }
}
int main()
{
    boost::lockfree::queue< int > q( 8 );
    check( q );
}
''')

seed("c21-ring-base-pointer", "C21",
     [(P, " storage_type storage_;\n\n    T* data()\n    {\n        return static_cast< T* >( storage_.address() );\n    }", " storage_type storage_;\n    T*           base_ = static_cast< T* >( storage_.address() );\n\n    T* data()\n    {\n        return base_;\n    }")],
     needs="a compile-time sized ring in shared memory that two processes map at different addresses",
     breaks="the ring keeps the address of its own storage: a process that maps it elsewhere writes to a foreign address",
     demo=HEAD + r'''
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <boost/lockfree/spsc_queue.hpp>
int main()
{
    typedef boost::lockfree::spsc_queue< long, boost::lockfree::capacity< 7 > > Q;
    int fd = memfd_create( "ring", 0 );
    CHECK( fd >= 0 && ftruncate( fd, 8192 ) == 0 );
    void* a = mmap( 0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
    void* b = mmap( 0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
    CHECK( a != MAP_FAILED && b != MAP_FAILED && a != b );
    Q* p = new ( a ) Q;
    Q* c = (Q*)b;
    CHECK( p->push( 1 ) );
    // the producer's mapping goes away; from now on only the other one exists
    CHECK( mprotect( a, 8192, PROT_NONE ) == 0 );
    long x = 0;
    CHECK( c->pop( x ) && x == 1 );
    CHECK( c->push( 2 ) && c->pop( x ) && x == 2 );
}
''')

POPN = "            freelist_node*  new_pool_ptr = old_pool->next.get_ptr();\n            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if ( pool_.compare"
seed("c05-pool-tag-kept", "C05",
     [(F, POPN, POPN.replace("get_next_tag", "get_tag"))],
     needs="a push that has read the free list's head and its successor while other operations take and return the same node and keep its successor",
     breaks="taking a node does not change the free list's version tag: a stale exchange puts a node that is in use back on the free list",
     shim=True, demo=HEAD + r'''
#include <boost/lockfree/queue.hpp>
int main()
{
    typedef boost::lockfree::queue< int > Q;
    Q    q( 8 );
    int  x;
    bool done = false;
    shim::before() = [&]( shim::op_kind k, void const* ) {
        if ( k != shim::op_cas || done ) return;
        done = true;
        // the other thread: two nodes leave the free list, the first one comes back, the second one stays in use
        CHECK( q.push( 1 ) && q.push( 2 ) );
        CHECK( q.pop( x ) && x == 1 && q.pop( x ) && x == 2 );
    };
    CHECK( q.push( 10 ) && done );
    shim::before() = nullptr;
    for ( int i = 11; i != 15; ++i ) CHECK( q.push( i ) );
    // no operation may need more steps than a handful here
    long ops = 0;
    shim::before() = [&]( shim::op_kind, void const* ) { CHECK( ++ops < 100000 ); };
    for ( int i = 10; i != 15; ++i ) CHECK( q.pop( x ) && x == i );
    CHECK( !q.pop( x ) );
    shim::before() = nullptr;
    std::_Exit( 0 );
}
''')

seed("c08-pool-keeps-last", "C08",
     [(F, "            Alloc::deallocate( (T*)current_ptr, 1 );\n", "            if ( current )\n                Alloc::deallocate( (T*)current_ptr, 1 );\n")],
     needs="a growing container that is destroyed while its allocator is being watched",
     breaks="the last node of the free list is not returned to the allocator: every container leaks one node",
     demo=HEAD + ALLOC + r'''
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/queue.hpp>
int main()
{
    {
        boost::lockfree::stack< long, boost::lockfree::allocator< A< long > > > s( 3 );
        boost::lockfree::queue< long, boost::lockfree::allocator< A< long > > > q( 3 );
        for ( long i = 0; i != 5; ++i ) CHECK( q.push( i ) && s.push( i ) );
    }
    CHECK( balance == 0 && exact );
}
''')

seed("c24-queue-empty-by-tag", "C24",
     [(Q, "return pool.get_handle( head_.load() ) == pool.get_handle( tail_.load() );", "return head_.load().get_tag() == tail_.load().get_tag();")],
     needs="a queue that holds a multiple of 65536 elements",
     breaks="empty() compares the version tags, which agree whenever the number of elements is a multiple of 65536",
     demo=HEAD + r'''
#include <boost/lockfree/queue.hpp>
int main()
{
    boost::lockfree::queue< int > q( 8 );
    CHECK( q.empty() );
    for ( int i = 0; i != 70000; ++i ) { CHECK( q.push( i ) ); CHECK( !q.empty() ); }
    int x;
    for ( int i = 0; i != 70000; ++i ) { CHECK( !q.empty() ); CHECK( q.pop( x ) && x == i ); }
    CHECK( q.empty() );
}
''')

DEA = "            tagged_index new_pool( index, old_pool.get_tag() );\n            new_pool_node->next.set_index( old_pool.get_index() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )\n                return;\n"
seed("c19-unsync-range-bounded", "C19",
     [(S, "prepare_node_list< false, false >( begin, end, ret );", "prepare_node_list< false, true >( begin, end, ret );")],
     needs="unsynchronized_push of a range that is longer than the free nodes of a growing stack",
     breaks="the unsynchronised range push stops at the preallocated nodes where the thread-safe one grows",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
int main()
{
    int a[ 7 ] = { 0, 1, 2, 3, 4, 5, 6 }, x;
    boost::lockfree::stack< int > s( 3 ), t( 3 );
    CHECK( s.push( a, a + 7 ) == a + 7 );
    CHECK( t.unsynchronized_push( a, a + 7 ) == a + 7 );
    for ( int i = 6; i >= 0; --i ) CHECK( s.pop( x ) && x == i && t.pop( x ) && x == i );
}
''')

seed("c12-range-skips-refused", "C12",
     [(S, "                if ( newnode == NULL )\n                    break;\n", "                if ( newnode == NULL )\n                    return ret = ++it, make_tuple( new_top_node, end_node );\n")],
     needs="a range push of which only a part fits",
     breaks="the returned iterator points behind the first element that was not taken: a caller that resumes there loses it",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
int main()
{
    int a[ 7 ] = { 0, 1, 2, 3, 4, 5, 6 }, x;
    boost::lockfree::stack< int, boost::lockfree::capacity< 3 > > s;
    CHECK( s.push( a, a + 7 ) == a + 3 );
    for ( int i = 2; i >= 0; --i ) CHECK( s.pop( x ) && x == i );
    CHECK( s.bounded_push( a + 3, a + 7 ) == a + 6 );
}
''')

MUST = r'''#!/bin/bash
# the first program has to compile, the second must not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cat > "$T/good.cpp" <<'X'
@GOOD@
X
cat > "$T/bad.cpp" <<'X'
@BAD@
X
C="g++ -std=gnu++17 -w -fsyntax-only -I$PWD/include"
$C "$T/good.cpp" || { echo "the permitted use does not compile"; exit 1; }
@IFBAD@
exit 0
'''


def must(good, bad):
    return MUST.replace("@GOOD@", good).replace("@BAD@", bad).replace("@IFBAD@", '$C "$T/bad.cpp" 2>/dev/null && { echo "misuse compiles"; exit 1; }' if bad else "")


seed("c16-queue-takes-destructors", "C16",
     [(Q, "    BOOST_STATIC_ASSERT( ( boost::has_trivial_destructor< T >::value ) );\n", "")],
     needs="a client that stores elements with a destructor and trivial assignment in a queue",
     breaks="a queue of elements with a non-trivial destructor compiles; its elements are copied and dropped without regard to their ownership",
     demo="", script=must("#include <boost/lockfree/queue.hpp>\nstruct D { int x; };\nvoid f( boost::lockfree::queue< D >& q, D& d ) { q.push( d ); q.pop( d ); }",
                          "#include <boost/lockfree/queue.hpp>\nstruct D { int x; ~D(); };\nvoid f( boost::lockfree::queue< D >& q, D& d ) { q.push( d ); q.pop( d ); }"))

seed("c16-ring-capacity-and-allocator", "C16",
     [(P, "    BOOST_STATIC_ASSERT( ( mpl::if_< mpl::bool_< !runtime_sized >,\n", "    BOOST_STATIC_ASSERT( ( mpl::if_< mpl::bool_< runtime_sized && extract_allocator_t::has_allocator >,\n"),
      (P, "                                     mpl::bool_< !extract_allocator_t::has_allocator >,\n", "                                     mpl::bool_< extract_allocator_t::has_allocator >,\n")],
     needs="a client that gives a compile-time sized ring an allocator, which it would never use",
     breaks="spsc_queue accepts capacity<> together with an allocator and silently ignores the allocator",
     demo="", script=must("#include <boost/lockfree/spsc_queue.hpp>\nnamespace lf = boost::lockfree;\nlf::spsc_queue< int, lf::capacity< 3 > > a; lf::spsc_queue< int, lf::allocator< std::allocator< int > > > b( 3 );",
                          "#include <boost/lockfree/spsc_queue.hpp>\nnamespace lf = boost::lockfree;\nlf::spsc_queue< int, lf::capacity< 3 >, lf::allocator< std::allocator< int > > > a;"))

REVC = "            node* next_node    = pool.get_pointer( node_pointer->next );\n\n            node_pointer->next = pool.get_handle( last_node_pointer );\n"
seed("c17-reversed-node-pointer", "C17",
     [(S, REVC, "            node* next_node    = pool.get_pointer( node_pointer->next );\n\n            node_pointer->next = last_node_pointer;\n")], nth={REVC: 1},
     needs="consume_all_atomic_reversed with a const functor on a fixed-size stack: no test instantiates it",
     breaks="the operation compiles for growing stacks only; for index-addressed ones a pointer is assigned to an index",
     demo="", script=must("#include <boost/lockfree/stack.hpp>\nnamespace lf = boost::lockfree;\nstruct F { void operator()( int ) const {} };\ntemplate < class S > void f( S& s ) { F const c = F(); F v; s.consume_all_atomic_reversed( c ); s.consume_all_atomic_reversed( v ); s.consume_all_atomic( c ); s.consume_all_atomic( v ); }\nvoid g() { lf::stack< int > a( 3 ); f( a ); lf::stack< int, lf::capacity< 3 > > b; f( b ); lf::stack< int, lf::fixed_sized< true > > c( 3 ); f( c ); }", ""))

CASALL = """            if ( tos.compare_exchange_weak( old_tos, new_tos ) )
                break;
        }

        tagged_node_handle nodes_to_consume = old_tos;
"""
seed("c02-consume-all-no-retry", "C02",
     [(S, CASALL, CASALL.replace("            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;\n", "            tos.compare_exchange_strong( old_tos, new_tos );\n            break;\n"))], nth={CASALL: 1},
     needs="a push or pop between the load of the top and the compare-and-swap of consume_all_atomic with a const functor",
     breaks="after a lost compare-and-swap consume_all_atomic consumes a list that it has not detached: the same elements are obtained again by the next pop",
     shim=True, demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
struct F { int* n; void operator()( int ) const { ++*n; } };
int main()
{
    boost::lockfree::stack< int, boost::lockfree::capacity< 4 > > s;
    CHECK( s.push( 1 ) && s.push( 2 ) );
    bool done = false;
    int n = 0, x = 0;
    shim::before() = [&]( shim::op_kind k, void const* ) {
        if ( k != shim::op_cas || done ) return;
        done = true;
        CHECK( s.push( 3 ) );
    };
    F const f = { &n };
    CHECK( s.consume_all_atomic( f ) == 3 && n == 3 && done );
    shim::before() = nullptr;
    CHECK( s.empty() && !s.pop( x ) );
    for ( int i = 0; i != 4; ++i ) CHECK( s.push( i ) );
    CHECK( !s.push( 9 ) );
}
''')

ONE = """                f( old_tos_pointer->v );
                pool.template destruct< true >( old_tos );
                return true;
"""
seed("c09-consume-released-node", "C09",
     [(S, ONE, "                pool.template destruct< true >( old_tos );\n                f( old_tos_pointer->v );\n                return true;\n")], nth={ONE: 1},
     needs="consume_one with a const functor while the released node is taken again (by another thread or by the functor itself) before the functor has read the element",
     breaks="the node returns to the pool before its last use: the functor reads an element that a later push has written into the node",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
typedef boost::lockfree::stack< int, boost::lockfree::capacity< 4 > > St;
struct F { St* s; int* got; void operator()( int const& x ) const { CHECK( s->push( 99 ) ); *got = x; } };
int main()
{
    St s;
    int got = 0, x = 0;
    CHECK( s.push( 7 ) );
    F const f = { &s, &got };
    CHECK( s.consume_one( f ) );
    CHECK( got == 7 );
    CHECK( s.pop( x ) && x == 99 && s.empty() );
}
''')

SPOP = """        BOOST_STATIC_ASSERT( ( boost::is_convertible< T, U >::value ) );
        detail::consume_via_copy< U > consumer( ret );

        return consume_one( consumer );
    }


    /** Pops object from stack.
     *
     * \\post if pop operation is successful, object will be copied to ret.
     * \\returns true, if the pop operation is successful, false if stack was empty.
     *
     * \\note Not thread-safe, but non-blocking
"""
seed("c18-stack-pop-copies-early", "C18",
     [(S, SPOP, SPOP.replace("""        detail::consume_via_copy< U > consumer( ret );

        return consume_one( consumer );
""", """        tagged_node_handle old_tos = tos.load( detail::memory_order_acquire );

        for ( ;; ) {
            node* old_tos_pointer = pool.get_pointer( old_tos );
            if ( !old_tos_pointer )
                return false;

            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );

            /* copy while the node is in the cache, as the queue does */
            detail::copy_payload( old_tos_pointer->v, ret );
            if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
                pool.template destruct< true >( old_tos );
                return true;
            }
        }
"""))],
     needs="a pop that loses the last element to another thread between copying it and its compare-and-swap",
     breaks="pop returns false although it has overwritten its target with an element that another thread obtained",
     shim=True, demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
int main()
{
    boost::lockfree::stack< int > s( 4 );
    CHECK( s.push( 7 ) );
    bool done = false;
    int x = -1, y = 0;
    shim::before() = [&]( shim::op_kind k, void const* ) {
        if ( k != shim::op_cas || done ) return;
        done = true;
        CHECK( s.pop( y ) && y == 7 );
    };
    CHECK( !s.pop( x ) && done );
    shim::before() = nullptr;
    CHECK( x == -1 );
}
''')

seed("c27-large-nodes-overrun", "C27",
     [(F, "    boost::array< char, size * sizeof( T ) + 64 > data;", "    boost::array< char, ( size - 1 ) * sizeof( T ) + 64 > data;")],
     needs="a compile-time sized container of elements that are larger than a cache line, filled to the last node",
     breaks="the storage is one node too small as soon as a node is larger than 64 bytes: the last element lies outside the container",
     demo=HEAD + r'''
#include <boost/lockfree/stack.hpp>
struct Big { char c[ 200 ]; };
typedef boost::lockfree::stack< Big, boost::lockfree::capacity< 4 > > Stack;
alignas( 64 ) char memory[ sizeof( Stack ) + 1024 ];
struct F
{
    void operator()( Big const& b ) const
    {
        CHECK( reinterpret_cast< char const* >( &b ) >= memory );
        CHECK( reinterpret_cast< char const* >( &b + 1 ) <= memory + sizeof( Stack ) );
    }
};
int main()
{
    Stack* s = new ( memory ) Stack;
    for ( int i = 0; i != 4; ++i ) CHECK( s->push( Big() ) );
    CHECK( s->consume_all( F() ) == 4 );
}
''')

UTAIL = "                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );\n                return true;\n"
seed("c24-unsync-push-leaves-tail", "C24",
     [(Q, UTAIL, "                return true; /* whoever comes next advances the tail */\n")],
     needs="empty() right after the first unsynchronized_push on an empty queue",
     breaks="empty() says true for a queue that holds an element: the unsynchronised push returns while the tail is still behind",
     demo=HEAD + r'''
#include <boost/lockfree/queue.hpp>
int main()
{
    boost::lockfree::queue< int > q( 4 );
    int x;
    for ( int i = 0; i != 5; ++i ) {
        CHECK( q.empty() );
        CHECK( q.unsynchronized_push( i ) );
        CHECK( !q.empty() );
        CHECK( q.unsynchronized_pop( x ) && x == i );
    }
}
''')
