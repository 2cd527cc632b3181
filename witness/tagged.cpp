// The words in which a reference and its version tag travel.  The name of an entry says what it has to return:
// vpe_argN_* its argument N, vpe_nextN_* the successor of argument N, vpe_eqAB_CD_* / vpe_neAB_CD_* whether argument A
// equals B and C equals D, vpe_setN_* whether argument N is not null.
#ifdef VP_DCAS
#    define BOOST_LOCKFREE_PREFIX_HPP_INCLUDED
#    define BOOST_LOCKFREE_CACHELINE_BYTES 64
#endif
#include <boost/lockfree/detail/freelist.hpp>
#include <boost/lockfree/detail/tagged_ptr.hpp>
#ifdef VP_DCAS
#    include <boost/lockfree/detail/tagged_ptr_dcas.hpp>
#else
#    include <boost/lockfree/detail/tagged_ptr_ptrcompression.hpp>
#endif
namespace d = boost::lockfree::detail;
struct alignas( VP_ALIGN ) X { char c[ VP_ALIGN ]; };
#ifdef VP_INDEX
typedef d::tagged_index   W;
typedef W::index_t        R;
#    define GET get_index
#    define SET set_index
#else
typedef d::tagged_ptr< X > W;
typedef X*                 R;
#    define GET get_ptr
#    define SET set_ptr
#endif
typedef W::tag_t G;
extern "C" {
R vpe_arg0_ref( R r, G t ) { W w( r, t ); return w.GET(); }
G vpe_arg1_tag( R r, G t ) { W w( r, t ); return w.get_tag(); }
R vpe_arg0_ref_const( R r, G t ) { W const w( r, t ); return w.GET(); }
G vpe_arg1_tag_const( R r, G t ) { W const w( r, t ); return w.get_tag(); }
R vpe_arg0_ref_only( R r ) { W w( r ); return w.GET(); }
R vpe_arg2_setref_ref( R r, G t, R q ) { W w( r, t ); w.SET( q ); return w.GET(); }
G vpe_arg1_setref_tag( R r, G t, R q ) { W w( r, t ); w.SET( q ); return w.get_tag(); }
R vpe_arg0_settag_ref( R r, G t, G u ) { W w( r, t ); w.set_tag( u ); return w.GET(); }
G vpe_arg2_settag_tag( R r, G t, G u ) { W w( r, t ); w.set_tag( u ); return w.get_tag(); }
R vpe_arg0_copy_ref( R r, G t ) { W w( r, t ); W v( w ); return v.GET(); }
G vpe_arg1_copy_tag( R r, G t ) { W w( r, t ); W v( w ); return v.get_tag(); }
R vpe_arg0_assign_ref( R r, G t, R q, G u ) { W w( r, t ); W v( q, u ); v = w; return v.GET(); }
G vpe_arg1_assign_tag( R r, G t, R q, G u ) { W w( r, t ); W v( q, u ); v = w; return v.get_tag(); }
R vpe_arg2_assign_from( R r, G t, R q, G u ) { W w( r, t ); W v( q, u ); w = v; w.SET( q ); return w.GET(); }
G vpe_next1_tag( R r, G t ) { W w( r, t ); return w.get_next_tag(); }
R vpe_arg0_next_ref( R r, G t ) { W w( r, t ); w.get_next_tag(); return w.GET(); }
G vpe_arg1_next_keeps( R r, G t ) { W w( r, t ); w.get_next_tag(); return w.get_tag(); }
G vpe_next1_rebuilt( R r, G t, R q ) { W w( r, t ); W v( q, w.get_next_tag() ); return v.get_tag(); }
R vpe_arg2_rebuilt( R r, G t, R q ) { W w( r, t ); W v( q, w.get_next_tag() ); return v.GET(); }
bool vpe_eq02_13_words( R r, G t, R q, G u ) { W w( r, t ), v( q, u ); return w == v; }
bool vpe_ne02_13_words( R r, G t, R q, G u ) { W w( r, t ), v( q, u ); return w != v; }
#ifndef VP_INDEX
R vpe_arg2_set_ref( R r, G t, R q, G u ) { W w( r, t ); w.set( q, u ); return w.GET(); }
G vpe_arg3_set_tag( R r, G t, R q, G u ) { W w( r, t ); w.set( q, u ); return w.get_tag(); }
X* vpe_arg0_arrow( R r, G t ) { W w( r, t ); return w.operator->(); }
X* vpe_arg0_star( R r, G t ) { W w( r, t ); return &*w; }
bool vpe_set0_bool( R r, G t ) { W w( r, t ); return bool( w ); }
#endif
}
