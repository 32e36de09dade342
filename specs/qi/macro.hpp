// stand-in for libqi's header: only the export attribute is used
#pragma once
#define QI_LIB_API(x)
