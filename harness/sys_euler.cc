#include "traits_euler.h"

#include "sys_facets.h"

ALL_FACETS(EulerTraits, 1)
ALL_FACETS(EulerTraits, 2)
ALL_FACETS(EulerTraits, 3)

SYS_MAIN
