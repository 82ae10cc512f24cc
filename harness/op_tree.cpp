// Edits of an XML tree, and the tree as every kind of iteration shows it.
#include "json.h"
#include "ops.h"
#include "ezxml/ezxml.h"
#include "ezxml/XFactory.h"
#include "ezxml/XDoc.h"
#include "ezxml/XElement.h"
#include "ezxml/XElementIterator.h"
#include "ezxml/XAttribute.h"
#include "ezxml/XAttributeIterator.h"
#include <map>
#include <sstream>

namespace
{
    using namespace ezxml;
    const char* typeName( XElementType t ) { return t == XElementType::text ? "text" : t == XElementType::element ? "element" : t == XElementType::empty ? "empty" : "null"; }

    js::Value shown( const XElement& e, bool isRoot )
    {
        auto r = js::Value::obj();
        const bool pi = e.getIsProcessingInstruction();
        r.set( "n", e.getName() ); r.set( "v", e.getValue() ); r.set( "pi", pi ); r.set( "ty", typeName( xElementTypeFromString( toString( e.getType() ) ) ) );
        auto at = js::Value::arr(), atb = js::Value::arr(), fwd = js::Value::arr(), rev = js::Value::arr(), all = js::Value::arr(), revall = js::Value::arr(), sib = js::Value::arr(), kids = js::Value::arr(), up = js::Value::arr();
        auto pair = []( const XAttribute& a ) { auto p = js::Value::arr(); p.push( a.getName() ); p.push( a.getValue() ); return p; };
        if( !pi )
        {
            const auto b = e.attributesBegin(), f = e.attributesEnd();
            for( auto it = b; it != f; ++it ) at.push( pair( *it ) );
            for( auto it = f; it != b; ) { --it; atb.push( pair( *it ) ); }
        }
        for( auto it = e.begin(); it != e.end(); ++it ) fwd.push( it->getName() );
        { const auto b = e.begin(); for( auto it = e.end(); it != b; ) { --it; rev.push( it->getName() ); } }
        for( auto it = e.beginWithProcessingInstructions(); it != e.end(); it++ ) { all.push( ( *it ).getName() ); kids.push( shown( *it, false ) ); }
        {
            const auto b = e.beginWithProcessingInstructions();
            auto it = e.end();
            it.setSkipProcessingInstructions( false );
            while( it != b ) { it--; revall.push( it->getName() ); }
        }
        {
            const auto b = e.beginWithProcessingInstructions();
            if( b != e.end() ) for( XElementPtr k = b->clone(); k; k = k->getNextSibling() ) sib.push( k->getName() );
        }
        {
            const auto p = e.getParent();
            if( !p ) up.push( "(nothing)" );
            else if( !p->getIsNull() ) up.push( p->getName() );
            else if( p->getType() != XElementType::null ) up.push( "(not null)" );
        }
        r.set( "at", at ); r.set( "atb", atb ); r.set( "fwd", fwd ); r.set( "rev", rev ); r.set( "all", all ); r.set( "revall", revall ); r.set( "sib", sib ); r.set( "up", up ); r.set( "kids", kids );
        return r;
    }
    js::Value shown( const XDoc& d )
    {
        auto r = js::Value::obj();
        r.set( "version", toString( d.getXmlVersion() ) ); r.set( "enc", toString( d.getEncoding() ) );
        r.set( "hasSa", d.getHasStandaloneAttribute() ); r.set( "sa", d.getIsStandalone() );
        r.set( "hasDt", d.getHasDoctypeDeclaration() ); r.set( "dt", d.getDoctypeValue() );
        return r;
    }
    void number( const XElementPtr& e, std::map<int, XElementPtr>& nodes )
    {
        nodes[(int)nodes.size() + 1] = e;
        for( auto it = e->beginWithProcessingInstructions(); it != e->end(); ++it ) number( it->clone(), nodes );
    }

    js::Value opTree( const js::Value& q )
    {
        auto doc = XFactory::makeXDoc();
        if( q.has( "load" ) ) { std::istringstream is( q.at( "load" ).str() ); doc->loadStream( is ); }
        std::map<int, XElementPtr> nodes;
        int fresh = 0;
        auto renumber = [&] { nodes.clear(); number( doc->getRoot(), nodes ); fresh = (int)nodes.size() + 1; };
        auto out = js::Value::arr();
        auto tell = [&]( js::Value r )
        {
            try { r.set( "root", shown( *doc->getRoot(), true ) ); r.set( "doc", shown( *doc ) ); }
            catch( const std::exception& e ) { auto x = js::Value::obj(); x.set( "error", std::string( e.what() ) ); r.set( "root", x ); r.set( "doc", x ); }
            out.push( r );
        };
        {
            auto r = js::Value::obj();
            try { renumber(); r.set( "err", false ); } catch( const std::exception& e ) { r.set( "err", true ); r.set( "why", std::string( e.what() ) ); }
            tell( r );
        }
        for( auto& s : q.at( "steps" ).a )
        {
            const auto& f = s.at( "f" ).str();
            auto r = js::Value::obj();
            bool err = false;
            try
            {
                XElementPtr e;
                if( s.has( "h" ) )
                {
                    auto it = nodes.find( s.at( "h" ).num() );
                    if( it == nodes.end() ) throw std::runtime_error( "no such node" );
                    e = it->second;
                    if( s.has( "clone" ) ) e = e->clone();
                }
                auto attr = [&]() { auto it = e->attributesBegin(); for( int k = 1; k < s.at( "i" ).num(); ++k ) ++it; return it; };
                if( f == "append" ) { auto n = e->appendChild( s.at( "name" ).str() ); nodes[fresh++] = n; }
                else if( f == "prepend" ) { auto n = e->prependChild( s.at( "name" ).str() ); nodes[fresh++] = n; }
                else if( f == "after" ) { auto n = e->insertSiblingAfter( s.at( "name" ).str() ); nodes[fresh++] = n; }
                else if( f == "remove" ) r.set( "out", e->removeChild( s.at( "name" ).str() ) );
                else if( f == "walk" )
                {
                    auto log = js::Value::arr();
                    auto it = e->beginWithProcessingInstructions();
                    const auto finish = e->end();
                    auto place = [&]( const XElementIterator& i ) { return i == finish ? std::string( "(end)" ) : i->getName(); };
                    for( auto& v : s.at( "moves" ).a )
                    {
                        const auto& m = v.str();
                        const bool plus = m.find( '+' ) != std::string::npos, minus = m.find( '-' ) != std::string::npos;
                        const bool post = m[0] == 'p';
                        std::string told;
                        const bool first = minus && it == ( it.getSkipProcessingInstructions() ? e->begin() : e->beginWithProcessingInstructions() );
                        if( ( plus && it == finish ) || first ) told = place( it );
                        else if( plus ) told = post ? place( it++ ) : place( ++it );
                        else if( minus ) told = post ? place( it-- ) : place( --it );
                        else
                        {
                            if( m == "all" ) it.setSkipProcessingInstructions( false );
                            else if( it == finish || !it->getIsProcessingInstruction() ) it.setSkipProcessingInstructions( true );
                            told = place( it );
                        }
                        auto p = js::Value::arr();
                        p.push( told ); p.push( place( it ) );
                        log.push( p );
                    }
                    r.set( "out", log );
                }
                else if( f == "attWalk" )
                {
                    auto log = js::Value::arr();
                    auto it = e->attributesBegin();
                    const auto start = e->attributesBegin(), finish = e->attributesEnd();
                    auto place = [&]( const XAttributeIterator& i )
                    {
                        auto p = js::Value::arr();
                        p.push( i == finish ? std::string( "(end)" ) : i->getName() ); p.push( i == finish ? std::string() : i->getValue() );
                        return p;
                    };
                    for( auto& v : s.at( "moves" ).a )
                    {
                        const auto& m = v.str();
                        const bool plus = m.find( '+' ) != std::string::npos && it != finish, minus = m.find( '-' ) != std::string::npos && it != start;
                        const bool post = m[0] == 'p';
                        auto p = js::Value::arr();
                        if( plus ) p.push( post ? place( it++ ) : place( ++it ) );
                        else if( minus ) p.push( post ? place( it-- ) : place( --it ) );
                        else p.push( place( it ) );
                        p.push( place( it ) );
                        log.push( p );
                    }
                    r.set( "out", log );
                }
                else if( f == "name" ) e->setName( s.at( "name" ).str() );
                else if( f == "value" ) e->setValue( s.at( "value" ).str() );
                else if( f == "addAttr" ) { auto a = e->appendAttribute( s.at( "name" ).str() ); a->setValue( s.at( "value" ).str() ); }
                else if( f == "preAttr" ) { auto a = e->prependAttribute( s.at( "name" ).str() ); a->setValue( s.at( "value" ).str() ); }
                else if( f == "delAttr" ) e->removeAttribute( attr() );
                else if( f == "setAttr" ) { auto it = attr(); it->setName( s.at( "name" ).str() ); it->setValue( s.at( "value" ).str() ); }
                else if( f == "version" ) doc->setXmlVersion( s.at( "value" ).str() == "1.1" ? XmlVersion::onePointOne : XmlVersion::onePointZero );
                else if( f == "enc" ) doc->setEncoding( s.at( "value" ).str() == "UTF-16" ? Encoding::utfSixteen : Encoding::utfEight );
                else if( f == "hasSa" ) doc->setHasStandaloneAttribute( s.at( "b" ).b );
                else if( f == "sa" ) doc->setIsStandalone( s.at( "b" ).b );
                else if( f == "hasDt" ) doc->setHasDoctypeDeclaration( s.at( "b" ).b );
                else if( f == "dt" ) doc->setDoctypeValue( s.at( "value" ).str() );
                else if( f == "bom" ) doc->setDoWriteByteOrderMark( s.at( "b" ).b );
                else if( f == "reload" )
                {
                    std::stringstream ss;
                    doc->saveStream( ss );
                    auto d = XFactory::makeXDoc();
                    d->loadStream( ss );
                    nodes.clear();
                    doc = d;
                    renumber();
                }
                else throw std::logic_error( "harness: unknown step " + f );
            }
            catch( const std::logic_error& e ) { if( std::string( e.what() ).rfind( "harness", 0 ) == 0 ) throw; err = true; r.set( "why", std::string( e.what() ) ); }
            catch( const std::exception& e ) { err = true; r.set( "why", std::string( e.what() ) ); }
            r.set( "err", err );
            tell( r );
        }
        auto r = js::Value::obj();
        r.set( "r", out );
        return r;
    }
    RegisterOp reg{ "tree", opTree };
}
