// Interface between the harnesses and the symbolic engine (and the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#if DCAS        // as on a platform without spare address bits: address and tag are two words, swapped together
#    include <boost/lockfree/detail/prefix.hpp>
#    undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
extern "C" {
uint64_t __lf_nondet( unsigned bits, const char* name );
void     __lf_assume( bool );
void     __lf_assert( bool, const char* );
void     __lf_cover( bool, const char* );
void     __lf_mark( int );
bool     __lf_before( int, int );
bool     __lf_done( int );
uint64_t __lf_heap_live( void );
bool     __lf_symbolic( void );
}
#define LF_OPT( name, text ) extern "C" __attribute__( ( used ) ) const char opt_##name[] = text;
#define LF_ASSERT( c, m ) __lf_assert( ( c ), m )
#define LF_COVER( c, m ) __lf_cover( ( c ), m )
#define LF_ASSUME( c ) __lf_assume( ( c ) )

inline unsigned nondet( unsigned bits, const char* n = "n" ) { return (unsigned)__lf_nondet( bits, n ); }
// a value in [lo, hi]
inline unsigned choose( unsigned lo, unsigned hi, const char* n = "choice" )
{
    unsigned w = hi - lo, bits = 0;
    while ( ( 1u << bits ) <= w )
        bits++;
    if ( bits == 0 )
        return lo;
    unsigned v = nondet( bits, n );
    __lf_assume( v <= w );
    return lo + v;
}
