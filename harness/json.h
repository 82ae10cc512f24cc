// Minimal JSON value, parser and printer used by the conformance drivers.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cstdint>

namespace js
{
struct Value;
using Array = std::vector<Value>;
struct Value
{
    enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<Value> a;
    std::vector<std::pair<std::string, Value>> o;

    Value() {}
    Value( bool x ) : t{ Bool }, b{ x } {}
    Value( int x ) : t{ Int }, i{ x } {}
    Value( long long x ) : t{ Int }, i{ x } {}
    Value( size_t x ) : t{ Int }, i{ (long long)x } {}
    Value( const std::string& x ) : t{ Str }, s{ x } {}
    Value( const char* x ) : t{ Str }, s{ x } {}
    static Value arr() { Value v; v.t = Arr; return v; }
    static Value obj() { Value v; v.t = Obj; return v; }
    void push( Value v ) { t = Arr; a.push_back( std::move( v ) ); }
    void set( const std::string& k, Value v )
    {
        t = Obj;
        for( auto& p : o ) if( p.first == k ) { p.second = std::move( v ); return; }
        o.emplace_back( k, std::move( v ) );
    }
    const Value* find( const std::string& k ) const
    {
        for( auto& p : o ) if( p.first == k ) return &p.second;
        return nullptr;
    }
    const Value& at( const std::string& k ) const
    {
        auto p = find( k );
        if( !p ) throw std::logic_error( "harness: missing key " + k );
        return *p;
    }
    bool has( const std::string& k ) const { return find( k ) != nullptr; }
    int num() const { if( t != Int ) throw std::logic_error( "harness: not an int" ); return (int)i; }
    const std::string& str() const { if( t != Str ) throw std::logic_error( "harness: not a string" ); return s; }
    bool operator==( const Value& r ) const
    {
        return t == r.t && b == r.b && i == r.i && s == r.s && a == r.a && o == r.o;
    }
    bool operator!=( const Value& r ) const { return !( *this == r ); }

    void dump( std::string& out ) const
    {
        switch( t )
        {
            case Null: out += "null"; break;
            case Bool: out += b ? "true" : "false"; break;
            case Int: out += std::to_string( i ); break;
            case Str: quote( s, out ); break;
            case Arr:
            {
                out += '[';
                bool f = true;
                for( auto& x : a ) { if( !f ) out += ','; f = false; x.dump( out ); }
                out += ']';
                break;
            }
            case Obj:
            {
                out += '{';
                bool f = true;
                for( auto& x : o ) { if( !f ) out += ','; f = false; quote( x.first, out ); out += ':'; x.second.dump( out ); }
                out += '}';
                break;
            }
        }
    }
    std::string dump() const { std::string r; dump( r ); return r; }
    static void quote( const std::string& s, std::string& out )
    {
        out += '"';
        for( unsigned char c : s )
        {
            switch( c )
            {
                case '"': out += "\\\""; break;
                case '\\': out += "\\\\"; break;
                case '\n': out += "\\n"; break;
                case '\r': out += "\\r"; break;
                case '\t': out += "\\t"; break;
                default:
                    if( c < 0x20 ) { char buf[8]; snprintf( buf, 8, "\\u%04x", c ); out += buf; }
                    else out += (char)c;
            }
        }
        out += '"';
    }
};

struct Parser
{
    const char* p; const char* e;
    explicit Parser( const std::string& s ) : p{ s.data() }, e{ s.data() + s.size() } {}
    [[noreturn]] void fail( const char* m ) { throw std::logic_error( std::string( "harness json: " ) + m ); }
    void ws() { while( p < e && ( *p == ' ' || *p == '\n' || *p == '\t' || *p == '\r' ) ) ++p; }
    Value parse()
    {
        ws();
        if( p >= e ) fail( "eof" );
        switch( *p )
        {
            case '{':
            {
                Value v = Value::obj(); ++p; ws();
                if( *p == '}' ) { ++p; return v; }
                for( ;; )
                {
                    ws(); auto k = str(); ws();
                    if( *p != ':' ) fail( ":" );
                    ++p;
                    v.o.emplace_back( k, parse() ); ws();
                    if( *p == ',' ) { ++p; continue; }
                    if( *p == '}' ) { ++p; return v; }
                    fail( "obj" );
                }
            }
            case '[':
            {
                Value v = Value::arr(); ++p; ws();
                if( *p == ']' ) { ++p; return v; }
                for( ;; )
                {
                    v.a.push_back( parse() ); ws();
                    if( *p == ',' ) { ++p; continue; }
                    if( *p == ']' ) { ++p; return v; }
                    fail( "arr" );
                }
            }
            case '"': return Value( str() );
            case 't': p += 4; return Value( true );
            case 'f': p += 5; return Value( false );
            case 'n': p += 4; return Value();
            default:
            {
                char* q; long long x = strtoll( p, &q, 10 );
                if( q == p ) fail( "num" );
                p = q;
                if( p < e && ( *p == '.' || *p == 'e' || *p == 'E' ) ) fail( "float not allowed" );
                return Value( x );
            }
        }
    }
    void utf8( unsigned c, std::string& o )
    {
        if( c < 0x80 ) o += (char)c;
        else if( c < 0x800 ) { o += (char)( 0xC0 | c >> 6 ); o += (char)( 0x80 | ( c & 63 ) ); }
        else if( c < 0x10000 ) { o += (char)( 0xE0 | c >> 12 ); o += (char)( 0x80 | ( c >> 6 & 63 ) ); o += (char)( 0x80 | ( c & 63 ) ); }
        else { o += (char)( 0xF0 | c >> 18 ); o += (char)( 0x80 | ( c >> 12 & 63 ) ); o += (char)( 0x80 | ( c >> 6 & 63 ) ); o += (char)( 0x80 | ( c & 63 ) ); }
    }
    unsigned hex4() { unsigned r = 0; for( int k = 0; k < 4; ++k ) { char c = *p++; r = r * 16 + ( c <= '9' ? c - '0' : ( c | 32 ) - 'a' + 10 ); } return r; }
    std::string str()
    {
        if( *p != '"' ) fail( "str" );
        ++p; std::string o;
        while( p < e && *p != '"' )
        {
            if( *p == '\\' )
            {
                ++p; char c = *p++;
                switch( c )
                {
                    case 'n': o += '\n'; break;
                    case 't': o += '\t'; break;
                    case 'r': o += '\r'; break;
                    case 'b': o += '\b'; break;
                    case 'f': o += '\f'; break;
                    case 'u':
                    {
                        unsigned u = hex4();
                        if( u >= 0xD800 && u < 0xDC00 && p[0] == '\\' && p[1] == 'u' ) { p += 2; unsigned l = hex4(); u = 0x10000 + ( ( u - 0xD800 ) << 10 ) + ( l - 0xDC00 ); }
                        utf8( u, o ); break;
                    }
                    default: o += c;
                }
            }
            else o += *p++;
        }
        if( p >= e ) fail( "unterminated" );
        ++p;
        return o;
    }
};
inline Value parse( const std::string& s ) { Parser p{ s }; return p.parse(); }
}
