#include_next <deal.II/base/config.h>
#undef DEAL_II_WITH_SUNDIALS
