#pragma once
#include "json.h"
struct RegisterOp { RegisterOp( const char* name, js::Value ( *fn )( const js::Value& ) ); };
