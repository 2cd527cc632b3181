// VP_CFG 1: run-time sized, 2: compile-time sized
#include "common.hpp"
#include <boost/lockfree/spsc_queue.hpp>

#ifndef VP_T
#    define VP_T long
#endif
using T = VP_T;
#ifndef VP_CAP
#    define VP_CAP 37
#endif
#if VP_CFG == 2
typedef boost::lockfree::spsc_queue< T, boost::lockfree::capacity< VP_CAP > > Q;
#elif defined( VP_DEFALLOC )
typedef boost::lockfree::spsc_queue< T > Q;
#else
typedef boost::lockfree::spsc_queue< T, boost::lockfree::allocator< vp::Alloc< char > > > Q;
#endif
typedef Q::allocator A;

extern "C" {
#if VP_CFG == 2
void vpe_ctor( void* m ) { new ( m ) Q; }
void vpe_ctor_alloc( void* m, A const* a ) { new ( m ) Q( *a ); }
#else
void vpe_ctor( void* m, std::size_t n ) { new ( m ) Q( n ); }
void vpe_ctor_alloc( void* m, std::size_t n, A const* a ) { new ( m ) Q( n, *a ); }
#endif
void vpe_dtor( Q* q ) { q->~Q(); }
bool vpe_push( Q* q, T const* t ) { return q->push( *t ); }
std::size_t vpe_push_array( Q* q, T const* t, std::size_t n ) { return q->push( t, n ); }
std::size_t vpe_push_arr5( Q* q, T const ( *t )[ 5 ] ) { return q->push( *t ); }
T const* vpe_push_range( Q* q, T const* b, T const* e ) { return q->push( b, e ); }
bool vpe_pop( Q* q, T* t ) { return q->pop( *t ); }
bool vpe_pop_conv( Q* q, vp::Conv* t ) { return q->pop( *t ); }
bool vpe_pop_void( Q* q ) { return q->pop(); }
std::size_t vpe_pop_array( Q* q, T* t, std::size_t n ) { return q->pop( t, n ); }
std::size_t vpe_pop_arr5( Q* q, T ( *t )[ 5 ] ) { return q->pop( *t ); }
std::size_t vpe_pop_ptr( Q* q, T* t ) { return q->pop( t ); }
std::size_t vpe_pop_out( Q* q, void* o ) { return q->pop( vp::Out( o ) ); }
bool vpe_consume_one( Q* q, vp::Fn* f ) { return q->consume_one( *f ); }
bool vpe_consume_one_c( Q* q, vp::Fn const* f ) { return q->consume_one( *f ); }
std::size_t vpe_consume_all( Q* q, vp::Fn* f ) { return q->consume_all( *f ); }
std::size_t vpe_consume_all_c( Q* q, vp::Fn const* f ) { return q->consume_all( *f ); }
T const* vpe_front_c( Q const* q ) { return &q->front(); }
T* vpe_front( Q* q ) { return &q->front(); }
std::size_t vpe_read_available( Q const* q ) { return q->read_available(); }
std::size_t vpe_write_available( Q const* q ) { return q->write_available(); }
bool vpe_empty( Q* q ) { return q->empty(); }
bool vpe_is_lock_free( Q const* q ) { return q->is_lock_free(); }
void vpe_reset( Q* q ) { q->reset(); }
extern const unsigned long vpg_sizeof;
const unsigned long vpg_sizeof = sizeof( Q );
extern const unsigned long vpg_alignof;
const unsigned long vpg_alignof = alignof( Q );
extern const unsigned long vpg_esize;
const unsigned long vpg_esize = sizeof( T );
extern const unsigned long vpg_ealign;
const unsigned long vpg_ealign = alignof( T );
}
