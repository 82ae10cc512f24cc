// Drives the value types of mx::core: a list of steps on one value of a named type, and after each step what
// the value says of itself. It decides nothing.
#include "ops.h"
#include "op_value_list.h"
#include "mx/core/Color.h"
#include "mx/core/CommaSeparatedPositiveIntegers.h"
#include "mx/core/CommaSeparatedText.h"
#include "mx/core/Date.h"
#include "mx/core/Decimals.h"
#include "mx/core/Enums.h"
#include "mx/core/EnumsBuiltin.h"
#include "mx/core/FontSize.h"
#include "mx/core/Integers.h"
#include "mx/core/NumberOrNormal.h"
#include "mx/core/PlaybackSound.h"
#include "mx/core/PositiveIntegerOrEmpty.h"
#include "mx/core/XsID.h"
#include "mx/core/XsToken.h"
#include "mx/core/YesNoNumber.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <functional>
#include <memory>
#include <sstream>
#include <set>

using namespace mx::core;

namespace
{
    std::string numText( long double v )
    {
        char buf[6000];
        std::snprintf( buf, sizeof buf, "%.6Lf", v );
        return buf;
    }

    template<typename T> std::string streamed( const T& v )
    {
        std::ostringstream a;
        a << v;
        std::ostringstream b;
        toStream( b, v );
        return a.str() == b.str() ? a.str() : a.str() + " <> " + b.str();
    }

    int num( const js::Value& s, const char* k ) { return static_cast<int>( std::atoll( s.at( k ).str().c_str() ) ); }

    struct Val
    {
        virtual ~Val() = default;
        virtual void step( const std::string& what, const js::Value& s, js::Value& o ) = 0;
        virtual void look( js::Value& o ) = 0;
        virtual std::unique_ptr<Val> copy() const = 0;
        virtual void assign( const Val& other ) = 0;
    };

    template<typename D, typename T> struct Of : Val
    {
        T v;
        explicit Of( const T& t ) : v( t ) {}
        Of() : v() {}
        std::unique_ptr<Val> copy() const override { auto p = std::make_unique<D>(); p->v = T( v ); return p; }
        void assign( const Val& other ) override { v = static_cast<const Of<D, T>&>( other ).v; }
        void text( js::Value& o ) { o.set( "text", toString( v ) ); o.set( "out", streamed( v ) ); }
    };

    template<typename T> struct IntVal : Of<IntVal<T>, T>
    {
        using Of<IntVal<T>, T>::v;
        void step( const std::string& w, const js::Value& s, js::Value& o ) override
        {
            if( w == "make" ) v = T( num( s, "to" ) );
            else if( w == "set" ) v.setValue( num( s, "to" ) );
            else if( w == "parse" ) o.set( "ok", v.parse( s.at( "text" ).str() ) );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override { this->text( o ); o.set( "value", std::to_string( v.getValue() ) ); }
    };

    template<typename T> struct DecVal : Of<DecVal<T>, T>
    {
        using Of<DecVal<T>, T>::v;
        void step( const std::string& w, const js::Value& s, js::Value& o ) override
        {
            if( w == "make" ) v = T( std::strtold( s.at( "to" ).str().c_str(), nullptr ) );
            else if( w == "set" ) v.setValue( std::strtold( s.at( "to" ).str().c_str(), nullptr ) );
            else if( w == "parse" ) o.set( "ok", v.parse( s.at( "text" ).str() ) );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override { this->text( o ); o.set( "value", numText( v.getValue() ) ); }
    };

    struct DateVal : Of<DateVal, Date>
    {
        void step( const std::string& w, const js::Value& s, js::Value& o ) override
        {
            if( w == "make" ) v = Date( num( s, "y" ), num( s, "m" ), num( s, "d" ) );
            else if( w == "makeText" ) v = Date( s.at( "text" ).str() );
            else if( w == "parse" ) o.set( "ok", v.parse( s.at( "text" ).str() ) );
            else if( w == "setAll" ) o.set( "ok", v.setValue( num( s, "y" ), num( s, "m" ), num( s, "d" ) ) );
            else if( w == "setYear" ) v.setYear( num( s, "to" ) );
            else if( w == "setMonth" ) v.setMonth( num( s, "to" ) );
            else if( w == "setDay" ) v.setDay( num( s, "to" ) );
            else if( w == "addDays" ) v.addDays( num( s, "to" ) );
            else if( w == "addMonths" ) v.addMonths( num( s, "to" ) );
            else if( w == "addYears" ) v.addYears( num( s, "to" ) );
            else if( w == "next" ) o.set( "old", toString( v++ ) );
            else if( w == "preNext" ) o.set( "old", toString( ++v ) );
            else if( w == "prev" ) o.set( "old", toString( v-- ) );
            else if( w == "prePrev" ) o.set( "old", toString( --v ) );
            else if( w == "compare" )
            {
                const Date d( num( s, "y" ), num( s, "m" ), num( s, "d" ) );
                std::string r;
                if( v < d ) r += "<";
                if( v <= d ) r += "l";
                if( v == d ) r += "=";
                if( v != d ) r += "!";
                if( v >= d ) r += "g";
                if( v > d ) r += ">";
                o.set( "old", r );
            }
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            o.set( "value", std::to_string( v.getYear() ) + " " + std::to_string( v.getMonth() ) + " " + std::to_string( v.getDay() ) + " " +
                                std::to_string( v.getWeekday() ) + " " + std::to_string( v.daysInMonth() ) + " " + ( v.isLeapYear() ? "1" : "0" ) );
        }
    };

    struct ColorVal : Of<ColorVal, Color>
    {
        void step( const std::string& w, const js::Value& s, js::Value& ) override
        {
            if( w == "makeText" ) v = Color( s.at( "text" ).str() );
            else if( w == "make3" ) v = Color( num( s, "r" ), num( s, "g" ), num( s, "b" ) );
            else if( w == "make4" ) v = Color( num( s, "a" ), num( s, "r" ), num( s, "g" ), num( s, "b" ) );
            else if( w == "parse" ) v.parse( s.at( "text" ).str() );
            else if( w == "setAlpha" ) v.setAlpha( num( s, "to" ) );
            else if( w == "setRed" ) v.setRed( num( s, "to" ) );
            else if( w == "setGreen" ) v.setGreen( num( s, "to" ) );
            else if( w == "setBlue" ) v.setBlue( num( s, "to" ) );
            else if( w == "opaque" ) v.setColorType( Color::ColorType::RGB );
            else if( w == "withAlpha" ) v.setColorType( Color::ColorType::ARGB );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            o.set( "value", std::to_string( v.getAlpha() ) + " " + std::to_string( v.getRed() ) + " " + std::to_string( v.getGreen() ) + " " +
                                std::to_string( v.getBlue() ) + ( v.getColorType() == Color::ColorType::ARGB ? " a" : " o" ) );
        }
    };

    struct YesNoNumberVal : Of<YesNoNumberVal, YesNoNumber>
    {
        void step( const std::string& w, const js::Value& s, js::Value& o ) override
        {
            if( w == "parse" ) o.set( "ok", v.parse( s.at( "text" ).str() ) );
            else if( w == "makeText" ) v = YesNoNumber( s.at( "text" ).str() );
            else if( w == "setName" ) v.setYesNo( s.at( "to" ).str() == "yes" ? YesNo::yes : YesNo::no );
            else if( w == "setNumber" ) v.setDecimal( Decimal( std::strtold( s.at( "to" ).str().c_str(), nullptr ) ) );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            o.set( "value", std::string( v.getIsYesNo() ? "name " : "" ) + ( v.getIsDecimal() ? "number " : "" ) +
                                ( v.getIsYesNo() ? toString( v.getValueYesNo() ) : toString( v.getValueDecimal() ) ) );
        }
    };

    struct FontSizeVal : Of<FontSizeVal, FontSize>
    {
        void step( const std::string& w, const js::Value& s, js::Value& o ) override
        {
            if( w == "parse" ) o.set( "ok", v.parse( s.at( "text" ).str() ) );
            else if( w == "makeText" ) v = FontSize( s.at( "text" ).str() );
            else if( w == "setName" ) v.setCssFontSize( parseCssFontSize( s.at( "to" ).str() ) );
            else if( w == "setNumber" ) v.setDecimal( Decimal( std::strtold( s.at( "to" ).str().c_str(), nullptr ) ) );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            o.set( "value", std::string( v.getIsCssFontSize() ? "name " : "" ) + ( v.getIsDecimal() ? "number " : "" ) +
                                ( v.getIsCssFontSize() ? toString( v.getValueCssFontSize() ) : toString( v.getValueDecimal() ) ) );
        }
    };

    struct NumberOrNormalVal : Of<NumberOrNormalVal, NumberOrNormal>
    {
        void step( const std::string& w, const js::Value& s, js::Value& ) override
        {
            if( w == "parse" ) v.parse( s.at( "text" ).str() );
            else if( w == "makeText" ) v = NumberOrNormal( s.at( "text" ).str() );
            else if( w == "setName" ) v.setValueNormal();
            else if( w == "setNumber" ) v.setValue( Decimal( std::strtold( s.at( "to" ).str().c_str(), nullptr ) ) );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            o.set( "value", std::string( v.getIsNormal() ? "name " : "" ) + ( v.getIsNumber() ? "number " : "" ) +
                                ( v.getIsNormal() ? "normal" : toString( v.getValueNumber() ) ) );
        }
    };

    struct PositiveOrEmptyVal : Of<PositiveOrEmptyVal, PositiveIntegerOrEmpty>
    {
        void step( const std::string& w, const js::Value& s, js::Value& ) override
        {
            if( w == "parse" ) v.parse( s.at( "text" ).str() );
            else if( w == "makeText" ) v = PositiveIntegerOrEmpty( s.at( "text" ).str() );
            else if( w == "setName" ) v.setValueEmpty();
            else if( w == "setNumber" ) v.setValue( PositiveInteger( num( s, "to" ) ) );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            o.set( "value", std::string( v.getIsEmpty() ? "name " : "" ) + ( v.getIsNumber() ? "number " : "" ) +
                                ( v.getIsEmpty() ? "" : toString( v.getValueNumber() ) ) );
        }
    };

    struct IntSetVal : Of<IntSetVal, CommaSeparatedListOfPositiveIntegers>
    {
        void step( const std::string& w, const js::Value& s, js::Value& ) override
        {
            if( w == "parse" ) v.parse( s.at( "text" ).str() );
            else if( w == "makeText" ) v = CommaSeparatedListOfPositiveIntegers( s.at( "text" ).str() );
            else if( w == "setAll" || w == "makeAll" )
            {
                std::set<int> a;
                for( const auto& x : s.at( "to" ).a ) a.insert( std::atoi( x.str().c_str() ) );
                if( w == "setAll" ) { v.setValues( a ); return; }
                // in memory that something else has used
                using L = CommaSeparatedListOfPositiveIntegers;
                alignas( L ) unsigned char place[sizeof( L )];
                std::memset( place, 1, sizeof place );
                auto* const l = new( place ) L( a );
                v = *l;
                l->~L();
            }
            else if( w == "spaced" ) v.setUseSpaceBetweenItems( true );
            else if( w == "tight" ) v.setUseSpaceBetweenItems( false );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override
        {
            text( o );
            std::string r;
            for( const auto x : v.getValues() ) r += std::to_string( x ) + " ";
            o.set( "value", r );
        }
    };

    template<typename T> struct TextVal : Of<TextVal<T>, T>
    {
        using Of<TextVal<T>, T>::v;
        void step( const std::string& w, const js::Value& s, js::Value& ) override
        {
            if( w == "makeText" ) v = T( s.at( "text" ).str() );
            else if( w == "set" ) v.setValue( s.at( "to" ).str() );
            else throw std::logic_error( "harness: step" );
        }
        void look( js::Value& o ) override { std::ostringstream ss; ss << v; o.set( "out", ss.str() ); o.set( "text", v.getValue() ); o.set( "value", v.getValue() ); }
    };

    template<typename T> struct OtherVal : Of<OtherVal<T>, T>
    {
        using Of<OtherVal<T>, T>::v;
        void step( const std::string& w, const js::Value& s, js::Value& ) override;
        void look( js::Value& o ) override
        {
            this->text( o );
            o.set( "value", v.getValueString() );
            o.set( "name", toString( v.getValue() ) );
        }
    };
#define MX_STEP( T, E ) template<> void OtherVal<T>::step( const std::string& w, const js::Value& s, js::Value& ) \
    { \
        if( w == "makeText" ) v = T( s.at( "text" ).str() ); \
        else if( w == "parse" ) v = parse##T( s.at( "text" ).str() ); \
        else if( w == "set" ) v.setValue( s.at( "to" ).str() ); \
        else if( w == "setName" ) v.setValue( parse##E( s.at( "to" ).str() ) ); \
        else if( w == "makeName" ) v = T( parse##E( s.at( "to" ).str() ) ); \
        else throw std::logic_error( "harness: step" ); \
    }
    MX_STEP( DistanceType, DistanceTypeEnum )
    MX_STEP( DynamicsValue, DynamicsEnum )
    MX_STEP( LineWidthType, LineWidthTypeEnum )
    MX_STEP( ModeValue, ModeEnum )

    using Make = std::unique_ptr<Val> ( * )();
    template<typename V> std::unique_ptr<Val> make() { return std::make_unique<V>(); }

    const std::map<std::string, Make>& makers()
    {
        static const std::map<std::string, Make> t{
#define MX_ENTRY( T ) { #T, &make<IntVal<T>> },
            MX_VALUE_INTS( MX_ENTRY )
#undef MX_ENTRY
#define MX_ENTRY( T ) { #T, &make<DecVal<T>> },
            MX_VALUE_DECIMALS( MX_ENTRY )
#undef MX_ENTRY
#define MX_ENTRY( T ) { #T, &make<OtherVal<T>> },
            MX_VALUE_OTHERS( MX_ENTRY )
#undef MX_ENTRY
            { "Integer", &make<IntVal<Integer>> },
            { "Decimal", &make<DecVal<Decimal>> },
            { "Date", &make<DateVal> },
            { "Color", &make<ColorVal> },
            { "YesNoNumber", &make<YesNoNumberVal> },
            { "FontSize", &make<FontSizeVal> },
            { "NumberOrNormal", &make<NumberOrNormalVal> },
            { "PositiveIntegerOrEmpty", &make<PositiveOrEmptyVal> },
            { "PositiveIntegers", &make<IntSetVal> },
            { "XsID", &make<TextVal<XsID>> },
            { "XsToken", &make<TextVal<XsToken>> },
        };
        return t;
    }

    template<typename T> js::Value enumLook( const std::optional<T>& opt, const T fallback )
    {
        auto o = js::Value::obj();
        o.set( "ok", opt.has_value() );
        o.set( "text", opt ? toString( *opt ) : std::string() );
        o.set( "out", opt ? streamed( *opt ) : std::string() );
        o.set( "value", opt ? std::to_string( static_cast<int>( *opt ) ) : std::string() );
        o.set( "fallback", toString( fallback ) );
        return o;
    }

    js::Value names( const std::string& type, const std::string& text )
    {
#define MX_ENTRY( T ) if( type == #T ) return enumLook( tryParse##T( text ), parse##T( text ) );
        MX_VALUE_ENUMS( MX_ENTRY )
#undef MX_ENTRY
        auto o = js::Value::obj();
        if( type == "XlinkActuate" || type == "XlinkShow" )
        {
            const auto t = type == "XlinkShow" ? toString( parseXlinkShow( text ) ) : toString( parseXlinkActuate( text ) );
            o.set( "ok", t == text );
            o.set( "text", t );
            o.set( "out", t );
            o.set( "value", t );
            o.set( "fallback", t );
            return o;
        }
        if( type != "PlaybackSound" ) throw std::logic_error( "harness: type" );
        try
        {
            const auto e = PlaybackSoundFromString( text );
            o.set( "ok", true );
            o.set( "text", std::string( PlaybackSoundToString( e ) ) );
            o.set( "out", std::string( PlaybackSoundToString( e ) ) );
            o.set( "value", std::to_string( static_cast<int>( e ) ) );
            o.set( "fallback", std::string( PlaybackSoundToString( e ) ) );
        }
        catch( const std::runtime_error& )
        {
            o.set( "ok", false );
            o.set( "text", std::string() );
            o.set( "out", std::string() );
            o.set( "value", std::string() );
            o.set( "fallback", std::string() );
        }
        return o;
    }

    js::Value value( const js::Value& in )
    {
        auto out = js::Value::obj();
        auto list = js::Value::arr();
        const auto type = in.at( "type" ).str();
        const auto maker = makers().find( type );
        if( maker == makers().end() )
        {
            for( const auto& s : in.at( "steps" ).a ) list.a.push_back( names( type, s.at( "text" ).str() ) );
            out.set( "seen", list );
            return out;
        }
        auto v = maker->second();
        std::unique_ptr<Val> kept;
        for( const auto& s : in.at( "steps" ).a )
        {
            auto o = js::Value::obj();
            const auto w = s.at( "do" ).str();
            if( w == "look" ) {}
            else if( w == "copy" ) { kept = std::move( v ); v = kept->copy(); }     // go on with a copy, keep the original
            else if( w == "swap" ) { if( kept ) std::swap( v, kept ); }             // go on with the one kept
            else if( w == "assign" ) { if( kept ) v->assign( *kept ); }             // assign the one kept
            else v->step( w, s, o );
            v->look( o );
            list.a.push_back( o );
        }
        out.set( "seen", list );
        return out;
    }
    RegisterOp r( "value", &value );
}
