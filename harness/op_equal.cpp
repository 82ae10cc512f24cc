// Drives comparison and copying of the mx::api value types: named slots of one type, edited in place at a path,
// copied, assigned, moved and compared. After each step it tells the full value of the slot it touched.
#include "ops.h"
#include "reflect.h"
#include <functional>
#include <memory>

namespace
{
    using namespace refl;

    template<class T> struct IsVector : std::false_type {};
    template<class T> struct IsVector<std::vector<T>> : std::true_type {};
    template<class T> struct IsOptional : std::false_type {};
    template<class T> struct IsOptional<std::optional<T>> : std::true_type {};
    template<class T> struct IsMap : std::false_type {};
    template<class K, class T> struct IsMap<std::map<K, T>> : std::true_type {};

    // everything, defaults included
    template<class T> js::Value deep( const T& v )
    {
        if constexpr( IsVector<T>::value ) { auto r = js::Value::arr(); for( auto& x : v ) r.push( deep( x ) ); return r; }
        else if constexpr( IsOptional<T>::value ) { auto r = js::Value::arr(); if( v ) r.push( deep( *v ) ); return r; }
        else if constexpr( IsMap<T>::value )
        {
            auto r = js::Value::arr();
            for( auto& x : v ) { auto p = js::Value::obj(); p.set( "k", x.first ); p.set( "v", deep( x.second ) ); r.push( p ); }
            return r;
        }
        else if constexpr( Fields<T>::value )
        {
            auto r = js::Value::obj();
            Fields<T>::visit( v, [&]( const char* n, const auto& f ) { r.o.emplace_back( n, deep( f ) ); } );
            return r;
        }
        else return toJson( v );
    }

    // path: field names, 1-based positions in lists and optionals, and for maps a position in key order and "v"
    template<class T> void change( T& v, const js::Value& path, size_t k, const js::Value& s )
    {
        if( k == path.a.size() )
        {
            auto& how = s.at( "how" ).str();
            if constexpr( IsVector<T>::value )
            {
                using E = typename T::value_type;
                if( how == "insert" ) { E e = make<E>(); fromJson( s.at( "to" ), e ); v.insert( v.begin() + ( s.at( "at" ).num() - 1 ), e ); return; }
                if( how == "erase" ) { v.erase( v.begin() + ( s.at( "at" ).num() - 1 ) ); return; }
                if( how == "exchange" ) { auto i = s.at( "at" ).num() - 1; std::swap( v.at( i ), v.at( i + 1 ) ); return; }
            }
            if constexpr( IsMap<T>::value )
            {
                using E = typename T::mapped_type;
                if( how == "put" ) { E e = make<E>(); fromJson( s.at( "to" ), e ); v[s.at( "key" ).num()] = e; return; }
                if( how == "rekey" ) { auto i = std::next( v.begin(), s.at( "at" ).num() - 1 ); E e = i->second; v.erase( i ); v[s.at( "key" ).num()] = e; return; }
                if( how == "erase" ) { v.erase( std::next( v.begin(), s.at( "at" ).num() - 1 ) ); return; }
            }
            if( how != "set" ) throw std::logic_error( "harness: cannot " + how );
            T x = make<T>(); fromJson( s.at( "to" ), x ); v = x;
            return;
        }
        auto& p = path.a[k];
        if constexpr( IsVector<T>::value ) change( v.at( p.num() - 1 ), path, k + 1, s );
        else if constexpr( IsOptional<T>::value ) change( v.value(), path, k + 1, s );
        else if constexpr( IsMap<T>::value ) change( std::next( v.begin(), p.num() - 1 )->second, path, k + 2, s );   // position, then "v"
        else if constexpr( Fields<T>::value )
        {
            bool found = false;
            Fields<T>::visit( v, [&]( const char* n, auto& f ) { if( !found && p.str() == n ) { found = true; change( f, path, k + 1, s ); } } );
            if( !found ) throw std::logic_error( "harness: no field " + p.str() );
        }
        else throw std::logic_error( "harness: path too long" );
    }

    template<class T> js::Value answers( const T& a, const T& b )
    {
        auto r = js::Value::obj();
        r.set( "eq", a == b );
        r.set( "ne", a != b );
        r.set( "qe", b == a );
        r.set( "en", b != a );
        if constexpr( !std::is_arithmetic_v<T> )
        {
            const std::vector<T> none, one{ a }, other{ b }, two{ a, b }, twice{ a, a }, back{ b, a };
            // lists: as their elements are, in order, and of one length
            r.set( "lists", one == other );
            r.set( "listsNot", one != other );
            r.set( "second", two == twice );
            r.set( "order", two == back );
            r.set( "orderNot", two != back );
            r.set( "length", one == twice || twice == one || none == one || one == none || !( one != twice ) || !( none != one ) );
            r.set( "same", one == one && two == two && none == none && !( two != two ) && !( none != none ) );
        }
        return r;
    }

    template<class T> js::Value run( const js::Value& q )
    {
        std::vector<T> slots( 3, make<T>() );
        auto seen = js::Value::arr();
        for( auto& s : q.at( "steps" ).a )
        {
            auto& what = s.at( "do" ).str();
            auto& v = slots.at( s.at( "slot" ).num() - 1 );
            auto o = js::Value::obj();
            if( what == "change" ) change( v, s.at( "path" ), 0, s );
            else if( what == "assign" ) v = slots.at( s.at( "from" ).num() - 1 );
            else if( what == "copy" ) { T x{ slots.at( s.at( "from" ).num() - 1 ) }; std::swap( v, x ); }
            else if( what == "through" ) { auto x = std::move( slots.at( s.at( "from" ).num() - 1 ) ); slots.at( s.at( "from" ).num() - 1 ) = x; v = std::move( x ); }
            else if( what == "fresh" ) v = make<T>();
            else if( what == "compare" ) { o = answers( v, slots.at( s.at( "from" ).num() - 1 ) ); seen.push( o ); continue; }
            else throw std::logic_error( "harness: what " + what );
            o.set( "value", deep( v ) );
            seen.push( o );
        }
        auto end = js::Value::arr();
        for( auto& v : slots ) end.push( deep( v ) );
        auto r = js::Value::obj();
        r.set( "seen", seen );
        r.set( "end", end );
        return r;
    }

    template<class T, class = void> struct Comparable : std::false_type {};
    template<class T> struct Comparable<T, std::void_t<decltype( std::declval<const T&>() == std::declval<const T&>() ), decltype( std::declval<const T&>() != std::declval<const T&>() )>> : std::true_type {};

    using Fn = js::Value ( * )( const js::Value& );
    template<class T> void put( std::map<std::string, Fn>& m, const char* name )
    {
        if constexpr( Comparable<T>::value ) m[name] = &run<T>;
    }

    const std::map<std::string, Fn>& table()
    {
        static const auto t = []
        {
            std::map<std::string, Fn> m;
#define TYPE( T ) put<mx::api::T>( m, #T );
#include "op_equal_list.h"
            return m;
        }();
        return t;
    }

    js::Value equal( const js::Value& q )
    {
        auto& t = table();
        if( q.has( "list" ) )
        {
            auto r = js::Value::arr();
            for( auto& x : t ) r.push( x.first );
            return r;
        }
        auto i = t.find( q.at( "type" ).str() );
        if( i == t.end() ) throw std::logic_error( "harness: no type " + q.at( "type" ).str() );
        return i->second( q );
    }
    const RegisterOp reg{ "equal", &equal };
}
