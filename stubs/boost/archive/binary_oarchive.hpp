#pragma once
#include <boost/archive/kv_archive.hpp>
