// Included before the real lib/lf/io/vtk_writer.cc: its output stream becomes a memory buffer and its function
// WriteToFile() is called WriteToFileReal(), so that the harness receives the data set of a writer directly.
#pragma once
// the output operators of the standard library are compiled along (instrumented) instead of taken from its binary
#include <ios>
#include <locale>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ostream>
#include <bits/ostream_insert.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <lf/io/vtk_writer.h>
#include "vtk_stream.h"
#define ofstream lfs_ofstream
#define WriteToFile WriteToFileReal
