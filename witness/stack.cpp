// every public operation of boost::lockfree::stack, instantiated for one storage configuration and element type
#define VP_USE_NOEXCEPT
#include "common.hpp"
#include <boost/lockfree/stack.hpp>

#ifndef VP_T
#    define VP_T long
#endif
using T = VP_T;
#ifndef VP_CAP
#    define VP_CAP 37
#endif
#if defined( VP_DEFALLOC ) && VP_CFG == 0
typedef boost::lockfree::stack< T > S;
#elif defined( VP_DEFALLOC ) && VP_CFG == 1
typedef boost::lockfree::stack< T, boost::lockfree::fixed_sized< true > > S;
#elif VP_CFG == 0
typedef boost::lockfree::stack< T, boost::lockfree::allocator< vp::Alloc< char > > > S;
#elif VP_CFG == 1
typedef boost::lockfree::stack< T, boost::lockfree::fixed_sized< true >, boost::lockfree::allocator< vp::Alloc< char > > > S;
#else
typedef boost::lockfree::stack< T, boost::lockfree::capacity< VP_CAP >, boost::lockfree::allocator< vp::Alloc< char > > > S;
#endif
typedef S::allocator A;

extern "C" {
#if VP_CFG == 2
void vpe_ctor( void* m ) { new ( m ) S; }
void vpe_ctor_alloc( void* m, A const* a ) { new ( m ) S( *a ); }
#else
void vpe_ctor( void* m, std::size_t n ) { new ( m ) S( n ); }
void vpe_ctor_alloc( void* m, std::size_t n, A const* a ) { new ( m ) S( n, *a ); }
#endif
void vpe_dtor( S* q ) { q->~S(); }
bool vpe_push( S* q, T const* t ) { return q->push( *t ); }
bool vpe_bounded_push( S* q, T const* t ) { return q->bounded_push( *t ); }
T const* vpe_push_range( S* q, T const* b, T const* e ) { return q->push( b, e ); }
T const* vpe_bounded_push_range( S* q, T const* b, T const* e ) { return q->bounded_push( b, e ); }
bool vpe_upush( S* q, T const* t ) { return q->unsynchronized_push( *t ); }
T const* vpe_upush_range( S* q, T const* b, T const* e ) { return q->unsynchronized_push( b, e ); }
bool vpe_pop( S* q, T* t ) { return q->pop( *t ); }
bool vpe_pop_conv( S* q, vp::Conv* t ) { return q->pop( *t ); }
bool vpe_upop( S* q, T* t ) { return q->unsynchronized_pop( *t ); }
bool vpe_upop_conv( S* q, vp::Conv* t ) { return q->unsynchronized_pop( *t ); }
bool vpe_consume_one( S* q, vp::Fn* f ) { return q->consume_one( *f ); }
bool vpe_consume_one_c( S* q, vp::Fn const* f ) { return q->consume_one( *f ); }
std::size_t vpe_consume_all( S* q, vp::Fn* f ) { return q->consume_all( *f ); }
std::size_t vpe_consume_all_c( S* q, vp::Fn const* f ) { return q->consume_all( *f ); }
std::size_t vpe_consume_all_atomic( S* q, vp::Fn* f ) { return q->consume_all_atomic( *f ); }
std::size_t vpe_consume_all_atomic_c( S* q, vp::Fn const* f ) { return q->consume_all_atomic( *f ); }
std::size_t vpe_consume_all_atomic_reversed( S* q, vp::Fn* f ) { return q->consume_all_atomic_reversed( *f ); }
std::size_t vpe_consume_all_atomic_reversed_c( S* q, vp::Fn const* f ) { return q->consume_all_atomic_reversed( *f ); }
bool vpe_empty( S const* q ) { return q->empty(); }
bool vpe_is_lock_free( S const* q ) { return q->is_lock_free(); }
#if VP_CFG == 0
void vpe_reserve( S* q, std::size_t n ) { q->reserve( n ); }
void vpe_reserve_unsafe( S* q, std::size_t n ) { q->reserve_unsafe( n ); }
#endif
extern const unsigned long vpg_sizeof;
const unsigned long vpg_sizeof = sizeof( S );
extern const unsigned long vpg_alignof;
const unsigned long vpg_alignof = alignof( S );
extern const unsigned long vpg_esize;
const unsigned long vpg_esize = sizeof( T );
extern const unsigned long vpg_ealign;
const unsigned long vpg_ealign = alignof( T );
}
