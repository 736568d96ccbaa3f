#include "adapter.inc"
