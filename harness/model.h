// Reference models for the sequential scenarios: a bounded sequence of values with symbolic length.
#pragma once
#include "lf.h"
template < int M >
struct Seq {
    uint32_t v[ M ];
    int      n;
    Seq() : n( 0 ) { for ( int i = 0; i < M; i++ ) v[ i ] = 0; }
    void push_back( uint32_t x ) { for ( int i = 0; i < M; i++ ) v[ i ] = i == n ? x : v[ i ]; n++; LF_ASSUME( n <= M ); }
    uint32_t pop_front() { uint32_t r = v[ 0 ]; for ( int i = 0; i + 1 < M; i++ ) v[ i ] = v[ i + 1 ]; n--; return r; }
    uint32_t pop_back() { uint32_t r = back(); n--; return r; }
    uint32_t at( int k ) const { uint32_t r = 0; for ( int i = 0; i < M; i++ ) r = i == k ? v[ i ] : r; return r; }
    uint32_t back() const { return at( n - 1 ); }
    void clear() { n = 0; }
};
