// Included before the real writers of text files: their output streams become memory buffers.
#pragma once
// the output operators of the standard library are compiled along (instrumented) instead of taken from its binary
#include <ios>
#include <locale>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ostream>
#include <bits/ostream_insert.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <iostream>
#include <sstream>
#include <lf/base/base.h>
#include <lf/geometry/geometry.h>
#include <lf/mesh/mesh.h>
#include <lf/refinement/mesh_hierarchy.h>
#include "dump_stream.h"
#define ofstream lfs_dumpstream
