// Elements that hold other elements: every container with its slots, driven by name. The table is in container*.cpp.
#pragma once
#include "json.h"
#include "ops.h"
#include "mx/core/ElementInterface.h"
#include <functional>
#include <map>
#include <memory>
#include <sstream>

namespace cont
{
    inline std::string squeeze( const std::string& s ) { std::string r; for( char c : s ) if( c != ' ' && c != '\n' && c != '\t' && c != '\r' ) r += c; return r; }
    inline std::string mark( const std::string& slot, int id ) { return "[" + slot + ":" + std::to_string( id ) + "]"; }

    // a child that prints as a mark, however it is asked to print
    template <class Y> struct Marked : Y
    {
        std::string text; int id = 0;
        bool hasContents() const override { return true; }
        std::ostream& streamContents( std::ostream& os, const int, bool& one ) const override { one = false; return os << text; }
        std::ostream& toStream( std::ostream& os, const int ) const override { return os << text; }
    };

    struct Slot
    {
        virtual ~Slot() {}
        virtual void add( int ) {}
        virtual void remove( int ) {}
        virtual void clear() {}
        virtual int look( int ) { return -2; }
        virtual void set( int ) {}
        virtual js::Value ids() = 0;
        virtual js::Value texts() = 0;
    };
    struct Box
    {
        std::shared_ptr<mx::core::ElementInterface> element;
        std::map<std::string, std::unique_ptr<Slot>> slots;
        std::map<std::string, std::function<void( bool )>> setHas;
        std::map<std::string, std::function<bool()>> getHas;
        std::function<void( const std::string& )> setChoice;
        std::function<std::string()> getChoice;
        bool group = false;
    };

    template <class Y> struct Children
    {
        std::string name; bool group;
        std::map<int, std::shared_ptr<Marked<Y>>> marks;
        std::shared_ptr<Y> make( int id )
        {
            if( id == 0 ) return nullptr;
            auto& m = marks[id];
            if( !m ) { m = std::make_shared<Marked<Y>>(); m->id = id; m->text = mark( name, id ); }
            return m;
        }
        static int id( const std::shared_ptr<Y>& p ) { if( !p ) return -1; auto m = dynamic_cast<Marked<Y>*>( p.get() ); return m ? m->id : 0; }
        std::string text( const std::shared_ptr<Y>& p )
        {
            if( !p ) return "";
            std::ostringstream os; bool one = true;
            if( group && !dynamic_cast<Marked<Y>*>( p.get() ) ) p->streamContents( os, 0, one ); else p->toStream( os, 0 );
            return squeeze( os.str() );
        }
    };
    template <class X, class Y> struct Many : Slot
    {
        using P = std::shared_ptr<Y>; using S = std::vector<P>; using I = typename S::const_iterator;
        std::shared_ptr<X> x; Children<Y> c;
        void ( X::*a )( const P& ); void ( X::*r )( const I& ); void ( X::*cl )(); const S& ( X::*s )() const; P ( X::*g )( const I& ) const;
        void add( int id ) override { ( x.get()->*a )( c.make( id ) ); }
        I at( int k ) { const S& v = ( x.get()->*s )(); return k < int( v.size() ) ? v.cbegin() + k : v.cend(); }
        void remove( int k ) override { ( x.get()->*r )( at( k ) ); }
        void clear() override { ( x.get()->*cl )(); }
        int look( int k ) override { return !g ? -2 : c.id( ( x.get()->*g )( at( k ) ) ); }
        js::Value ids() override { auto v = js::Value::arr(); for( const auto& p : ( x.get()->*s )() ) v.push( c.id( p ) ); return v; }
        js::Value texts() override { auto v = js::Value::arr(); for( const auto& p : ( x.get()->*s )() ) v.push( c.text( p ) ); return v; }
    };
    template <class X, class Y> struct One : Slot
    {
        using P = std::shared_ptr<Y>;
        std::shared_ptr<X> x; Children<Y> c;
        P ( X::*g )() const; void ( X::*st )( const P& );
        void set( int id ) override { ( x.get()->*st )( c.make( id ) ); }
        js::Value ids() override { auto v = js::Value::arr(); v.push( c.id( ( x.get()->*g )() ) ); return v; }
        js::Value texts() override { auto v = js::Value::arr(); v.push( c.text( ( x.get()->*g )() ) ); return v; }
    };
    template <class X> struct Build
    {
        std::shared_ptr<X> x = std::make_shared<X>(); Box b;
        Build( bool group ) { b.element = x; b.group = group; }
        template <class Y> Build& many( const char* n, bool group, void ( X::*a )( const std::shared_ptr<Y>& ), void ( X::*r )( const typename std::vector<std::shared_ptr<Y>>::const_iterator& ),
                                        void ( X::*cl )(), const std::vector<std::shared_ptr<Y>>& ( X::*s )() const, std::shared_ptr<Y> ( X::*g )( const typename std::vector<std::shared_ptr<Y>>::const_iterator& ) const )
        {
            auto m = std::make_unique<Many<X, Y>>(); m->x = x; m->c.name = n; m->c.group = group; m->a = a; m->r = r; m->cl = cl; m->s = s; m->g = g;
            b.slots[n] = std::move( m ); return *this;
        }
        template <class Y> Build& one( const char* n, bool group, std::shared_ptr<Y> ( X::*g )() const, void ( X::*st )( const std::shared_ptr<Y>& ) )
        {
            auto m = std::make_unique<One<X, Y>>(); m->x = x; m->c.name = n; m->c.group = group; m->g = g; m->st = st;
            b.slots[n] = std::move( m ); return *this;
        }
        Build& has( const char* n, bool ( X::*g )() const, void ( X::*s )( const bool ) )
        {
            auto p = x; b.getHas[n] = [p, g]() { return ( p.get()->*g )(); }; b.setHas[n] = [p, s]( bool v ) { ( p.get()->*s )( v ); }; return *this;
        }
        template <class C> Build& choice( C ( X::*g )() const, void ( X::*s )( const C ), std::map<std::string, C> names )
        {
            auto p = x;
            b.setChoice = [p, s, names]( const std::string& n ) { ( p.get()->*s )( names.at( n ) ); };
            b.getChoice = [p, g, names]() -> std::string { const auto v = ( p.get()->*g )(); for( const auto& q : names ) if( q.second == v ) return q.first; return "?"; };
            return *this;
        }
        Box done() { return std::move( b ); }
    };
    std::map<std::string, std::function<Box()>>& table();
    struct Add { Add( const char* n, std::function<Box()> f ) { table()[n] = f; } };
}
