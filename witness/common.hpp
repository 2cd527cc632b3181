// Opaque element, functor and allocator types: everything they do is a declared-only external function, so that
// each use stays visible as a call in the lowered code.
#pragma once
#ifdef VP_DCAS
// the double-width-CAS flavour of tagged_ptr, which x86-64 normally does not select
#    define BOOST_LOCKFREE_PREFIX_HPP_INCLUDED
#    define BOOST_LOCKFREE_CACHELINE_BYTES 64
#endif
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <new>

#ifdef VP_THROWING
#    define VP_NOEXCEPT
#else
#    define VP_NOEXCEPT noexcept
#endif

// user code that is handed an element (functors, assignments and conversions out of the container)
#if defined( VP_THROWING ) && !defined( VP_USE_NOEXCEPT )
#    define VP_UNOEXCEPT
#else
#    define VP_UNOEXCEPT noexcept
#endif

extern "C" {
void* vpx_alloc( void* state, std::size_t count, std::size_t elem_size ) VP_NOEXCEPT;
void  vpx_dealloc( void* state, void* p, std::size_t count, std::size_t elem_size ) noexcept;
}

namespace vp {

struct Elem
{
    long x;
    Elem() noexcept;
    Elem( Elem const& ) VP_NOEXCEPT;
    Elem& operator=( Elem const& ) VP_UNOEXCEPT;
    ~Elem() noexcept;
};

// trivially assignable and destructible (what queue requires), but with a copy constructor of its own
struct QElem
{
    long x;
    QElem() noexcept : x( 0 ) {}
    QElem( QElem const& ) VP_NOEXCEPT;
    QElem& operator=( QElem const& ) = default;
    ~QElem()                         = default;
};

// copied by its bytes, but with a destructor of its own
struct DElem
{
    long x;
    ~DElem() noexcept;
};

// the other way round
struct CElem
{
    long x;
    CElem() noexcept;
    CElem( CElem const& ) VP_NOEXCEPT;
    CElem& operator=( CElem const& ) VP_UNOEXCEPT;
    ~CElem() = default;
};

struct Pod
{
    long a, b, c;
};

struct Big
{
    char c[ 100 ];
};

struct alignas( 512 ) Wide
{
    char c[ 8 ];
};

// T converts to Conv implicitly
struct Conv
{
    long x;
    template < class T >
    Conv( T const& ) VP_UNOEXCEPT;
    Conv( Conv const& ) VP_UNOEXCEPT;
    template < class T >
    Conv& operator=( T const& ) VP_UNOEXCEPT;
    Conv& operator=( Conv const& ) VP_UNOEXCEPT;
};

// T converts to Expl only explicitly
struct Expl
{
    long x;
    Expl() noexcept;
    template < class T >
    explicit Expl( T const& ) VP_UNOEXCEPT;
    Expl( Expl const& ) VP_UNOEXCEPT;
    Expl& operator=( Expl const& ) VP_UNOEXCEPT;
};

// an output iterator; what is written to it goes to opaque user code
struct Out
{
    typedef std::output_iterator_tag iterator_category;
    typedef void                     value_type;
    typedef void                     difference_type;
    typedef void                     pointer;
    typedef void                     reference;
    void*                            s;
    explicit Out( void* p ) noexcept : s( p ) {}
    Out& operator*() noexcept { return *this; }
    Out& operator++() noexcept { return *this; }
    Out  operator++( int ) noexcept { return *this; }
    template < class T >
    Out& operator=( T const& ) VP_UNOEXCEPT;
};

struct Fn
{
    template < class T >
    void operator()( T& ) const VP_UNOEXCEPT;
};

template < class T >
struct Alloc
{
    typedef T           value_type;
    typedef T*          pointer;
    typedef T const*    const_pointer;
    typedef T&          reference;
    typedef T const&    const_reference;
    typedef std::size_t size_type;
    typedef ptrdiff_t   difference_type;
    template < class U >
    struct rebind
    {
        typedef Alloc< U > other;
    };
    void* state;
    Alloc() noexcept : state( nullptr ) {}
    explicit Alloc( void* s ) noexcept : state( s ) {}
    template < class U >
    Alloc( Alloc< U > const& o ) noexcept : state( o.state )
    {}
    T* allocate( std::size_t n )
    {
        return static_cast< T* >( vpx_alloc( state, n, sizeof( T ) ) );
    }
    void deallocate( T* p, std::size_t n )
    {
        vpx_dealloc( state, p, n, sizeof( T ) );
    }
    template < class U >
    bool operator==( Alloc< U > const& o ) const
    {
        return state == o.state;
    }
    template < class U >
    bool operator!=( Alloc< U > const& o ) const
    {
        return state != o.state;
    }
};

} // namespace vp
