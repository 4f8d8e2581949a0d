#pragma once
#include "drv.h"
#include <boost/context/stack_context.hpp>
#include <boost/context/stack_traits.hpp>
namespace drv {
// ------------------------------------------------------------ stack allocators
// every stack is taken from the arena, so that a use after release is seen
struct arena_stack {
    typedef boost::context::stack_traits traits_type;
    std::size_t size_;
    explicit arena_stack( std::size_t n = 64 * 1024) : size_( n) {}
    boost::context::stack_context allocate() {
        void * p = vrt::arena_alloc( size_, 4096);
        stack_alloced( p, size_);
        boost::context::stack_context sc; sc.size = size_; sc.sp = static_cast< char * >( p) + size_;
        return sc;
    }
    void deallocate( boost::context::stack_context & sc) noexcept {
        void * p = static_cast< char * >( sc.sp) - sc.size;
        stack_freed( p);
        vrt::arena_free( p);
    }
};

void life_teardown();
void life_setup();
void gate_setup();
void gate_done();
void gate_teardown();
void fut_teardown();
void thread_leave( int t);
long props_live();
void props_add( int);
void tab_add( void const *, int v);
int tab_get( void const *);
}
