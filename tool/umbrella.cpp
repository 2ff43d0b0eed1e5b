// The interface as a program sees it that includes the umbrella header (twice).
#include <tomsolver/tomsolver.h>
#include <tomsolver/tomsolver.h>
