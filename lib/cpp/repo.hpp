// The sources under test, compiled as they are (with `bool` replaced in the symbolic build). The driver lists all of them.
#pragma once
#define private public
#define protected public
#if defined(SYM) && !defined(FORKFIRST)
#define bool SBool
#endif
#if __has_include("repo_sources.hpp")
#include "repo_sources.hpp"
#else
#include "Code.hpp"
#include "Codes.hpp"
#include "Decoder.hpp"
#include "DecodingSimulator.hpp"
#include "GF2.hpp"
#include "TreeNode.hpp"
#include "UFDecoder.hpp"
#include "UFHeuristic.hpp"
#include "Utils.hpp"

#include "DecodingSimulator.cpp"
#include "GF2.cpp"
#include "Utils.cpp"
#include "UFDecoder.cpp"
#include "UFHeuristic.cpp"
#endif
#undef bool
#undef private
#undef protected
