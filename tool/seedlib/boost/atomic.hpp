// stand-in for boost/atomic.hpp: std::atomic with a hook called before every operation (a deterministic "other thread")
#ifndef SHIM_BOOST_ATOMIC
#define SHIM_BOOST_ATOMIC
#include <atomic>
#include <functional>
namespace shim {
enum op_kind { op_load, op_store, op_cas };
inline std::function< void( op_kind, void const* ) >& before() { static std::function< void( op_kind, void const* ) > f; return f; }
inline std::function< bool( void const* ) >& lock_free() { static std::function< bool( void const* ) > f; return f; }
inline bool& busy() { static bool b = false; return b; }
inline void hit( op_kind k, void const* a )
{
    if ( busy() || !before() ) return;
    busy() = true;
    auto f = before();
    f( k, a );
    busy() = false;
}
}
namespace boost {
using std::memory_order;
using std::memory_order_relaxed; using std::memory_order_acquire; using std::memory_order_consume;
using std::memory_order_release; using std::memory_order_seq_cst; using std::memory_order_acq_rel;
template < class T > struct atomic
{
    std::atomic< T > v;
    atomic() = default;
    constexpr atomic( T t ) : v( t ) {}
    atomic( atomic const& ) = delete;
    bool is_lock_free() const { return shim::lock_free() ? shim::lock_free()( this ) : v.is_lock_free(); }
    T load( memory_order o = std::memory_order_seq_cst ) const { shim::hit( shim::op_load, this ); return v.load( o ); }
    void store( T t, memory_order o = std::memory_order_seq_cst ) { shim::hit( shim::op_store, this ); v.store( t, o ); }
    T exchange( T t, memory_order o = std::memory_order_seq_cst ) { shim::hit( shim::op_cas, this ); return v.exchange( t, o ); }
    bool compare_exchange_weak( T& e, T d, memory_order o = std::memory_order_seq_cst ) { shim::hit( shim::op_cas, this ); return v.compare_exchange_strong( e, d, o ); }
    bool compare_exchange_strong( T& e, T d, memory_order o = std::memory_order_seq_cst ) { shim::hit( shim::op_cas, this ); return v.compare_exchange_strong( e, d, o ); }
    bool compare_exchange_weak( T& e, T d, memory_order o, memory_order ) { return compare_exchange_weak( e, d, o ); }
    bool compare_exchange_strong( T& e, T d, memory_order o, memory_order ) { return compare_exchange_strong( e, d, o ); }
};
}
#endif
