// Stand-in for heyoka, for analysis only.
#pragma once
#define HEYOKA_VERSION_MAJOR 7
