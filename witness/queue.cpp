// VP_POLICY: the policies of the queue under analysis; VP_CT: compile-time sized; VP_FIXED: index-based nodes
#include "common.hpp"
#include <boost/lockfree/queue.hpp>

#ifndef VP_T
#    define VP_T long
#endif
using T = VP_T;
#ifndef VP_CAP
#    define VP_CAP 37
#endif
#if defined( VP_DEFALLOC ) && VP_CFG == 0
typedef boost::lockfree::queue< T > Q;
#elif defined( VP_DEFALLOC ) && VP_CFG == 1
typedef boost::lockfree::queue< T, boost::lockfree::fixed_sized< true > > Q;
#elif VP_CFG == 0
typedef boost::lockfree::queue< T, boost::lockfree::allocator< vp::Alloc< char > > > Q;
#elif VP_CFG == 1
typedef boost::lockfree::queue< T, boost::lockfree::fixed_sized< true >, boost::lockfree::allocator< vp::Alloc< char > > > Q;
#else
typedef boost::lockfree::queue< T, boost::lockfree::capacity< VP_CAP >, boost::lockfree::allocator< vp::Alloc< char > > > Q;
#endif
typedef Q::allocator A;

extern "C" {
#if VP_CFG == 2
void vpe_ctor( void* m ) { new ( m ) Q; }
void vpe_ctor_alloc( void* m, A const* a ) { new ( m ) Q( *a ); }
#else
void vpe_ctor( void* m, std::size_t n ) { new ( m ) Q( n ); }
void vpe_ctor_alloc( void* m, std::size_t n, A const* a ) { new ( m ) Q( n, *a ); }
#endif
void vpe_dtor( Q* q ) { q->~Q(); }
bool vpe_push( Q* q, T const* t ) { return q->push( *t ); }
bool vpe_bounded_push( Q* q, T const* t ) { return q->bounded_push( *t ); }
bool vpe_pop( Q* q, T* t ) { return q->pop( *t ); }
bool vpe_pop_conv( Q* q, vp::Conv* t ) { return q->pop( *t ); }
bool vpe_pop_expl( Q* q, vp::Expl* t ) { return q->pop( *t ); }
bool vpe_upop( Q* q, T* t ) { return q->unsynchronized_pop( *t ); }
bool vpe_upop_conv( Q* q, vp::Conv* t ) { return q->unsynchronized_pop( *t ); }
bool vpe_upop_expl( Q* q, vp::Expl* t ) { return q->unsynchronized_pop( *t ); }
#if !VP_NO_UPUSH
bool vpe_upush( Q* q, T const* t ) { return q->unsynchronized_push( *t ); }
#endif
bool vpe_consume_one( Q* q, vp::Fn* f ) { return q->consume_one( *f ); }
bool vpe_consume_one_c( Q* q, vp::Fn const* f ) { return q->consume_one( *f ); }
std::size_t vpe_consume_all( Q* q, vp::Fn* f ) { return q->consume_all( *f ); }
std::size_t vpe_consume_all_c( Q* q, vp::Fn const* f ) { return q->consume_all( *f ); }
bool vpe_empty( Q const* q ) { return q->empty(); }
bool vpe_is_lock_free( Q const* q ) { return q->is_lock_free(); }
#if VP_CFG == 0
void vpe_reserve( Q* q, std::size_t n ) { q->reserve( n ); }
void vpe_reserve_unsafe( Q* q, std::size_t n ) { q->reserve_unsafe( n ); }
#endif
extern const unsigned long vpg_sizeof;
const unsigned long vpg_sizeof = sizeof( Q );
extern const unsigned long vpg_alignof;
const unsigned long vpg_alignof = alignof( Q );
extern const unsigned long vpg_esize;
const unsigned long vpg_esize = sizeof( T );
extern const unsigned long vpg_ealign;
const unsigned long vpg_ealign = alignof( T );
}
