// Edits of one element that holds others, and what it holds and prints after each.
#include "container.h"

namespace cont { std::map<std::string, std::function<Box()>>& table() { static std::map<std::string, std::function<Box()>> t; return t; } }

namespace
{
    js::Value shown( cont::Box& b )
    {
        auto r = js::Value::obj(), ids = js::Value::obj(), tx = js::Value::obj(), has = js::Value::obj();
        for( auto& s : b.slots ) { ids.set( s.first, s.second->ids() ); tx.set( s.first, s.second->texts() ); }
        for( auto& h : b.getHas ) has.set( h.first, h.second() );
        r.set( "ids", ids ); r.set( "tx", tx ); r.set( "has", has ); r.set( "ch", b.getChoice ? b.getChoice() : std::string() );
        std::ostringstream os; bool one = true;
        if( b.group ) b.element->streamContents( os, 0, one );
        else
        {
            b.element->toStream( os, 0 );
            // what stands between the tags
            std::string s = os.str(); const auto open = s.find( '>' ), close = s.rfind( '<' );
            if( open != std::string::npos && open > 0 && s[open - 1] == '/' ) s = open + 1 == s.size() ? "" : "(more)" + s.substr( open + 1 );
            else if( open == std::string::npos || close == std::string::npos || close <= open || s.compare( close, std::string::npos, "</" + b.element->getElementName() + ">" ) ) s = "(tags)" + s;
            else s = s.substr( open + 1, close - open - 1 );
            os.str( s );
        }
        r.set( "print", cont::squeeze( os.str() ) );
        return r;
    }
    js::Value container( const js::Value& in )
    {
        auto out = js::Value::obj(), steps = js::Value::arr();
        cont::Box b = cont::table().at( in.at( "class" ).s )();
        steps.push( shown( b ) );
        for( const auto& e : in.at( "steps" ).a )
        {
            const auto f = e.at( "f" ).s;
            int res = -2;
            if( f == "choice" ) b.setChoice( e.at( "v" ).s );
            else if( f == "has" ) b.setHas.at( e.at( "s" ).s )( e.at( "v" ).b );
            else
            {
                auto& s = *b.slots.at( e.at( "s" ).s );
                const int v = e.at( "v" ).num();
                if( f == "add" ) s.add( v ); else if( f == "remove" ) s.remove( v ); else if( f == "clear" ) s.clear(); else if( f == "set" ) s.set( v ); else if( f == "look" ) res = s.look( v );
            }
            auto r = shown( b ); r.set( "res", res ); steps.push( r );
        }
        out.set( "shown", steps );
        return out;
    }
    RegisterOp r1( "container", container );
}
