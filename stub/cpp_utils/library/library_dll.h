// Stand-in for the header cmake generates from cmake_utils/templates/cpp/library/library_dll.h.in
#pragma once
#define CPP_UTILS_DllAPI
#define CPP_UTILS_USERDllExport
