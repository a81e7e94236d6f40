// The allocator a user may pass to the library: vca::alloc<>.  Where it is only declared (verification), every block
// it hands out is an observable action; the replay driver defines it.
#ifndef VC_ALLOC_HPP
#define VC_ALLOC_HPP
#include <cstddef>
#include <memory>
namespace vca
{
  template< class T > struct alloc
  {
    typedef T value_type;
    template< class U > struct rebind { typedef alloc< U > other; };
    alloc() noexcept {}
    template< class U > alloc( const alloc< U > & ) noexcept {}
    T * allocate( std::size_t n );
    void deallocate( T * p, std::size_t n ) noexcept;
    template< class U > bool operator==( const alloc< U > & ) const noexcept { return true; }
    template< class U > bool operator!=( const alloc< U > & ) const noexcept { return false; }
  };
}
#ifdef VC_ALLOC
#define VC_ALLOCATOR vca::alloc< sc::none >
#else
#define VC_ALLOCATOR std::allocator< sc::none >
#endif
#endif
