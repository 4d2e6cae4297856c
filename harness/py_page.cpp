// Lets the driver of the Python package choose the size of a page in generated code.
#include <asmjit/asmjit.h>
extern "C" __attribute__((visibility("default"))) void vk_page_size(int size) { vkjit::page().size = size; vkjit::page().hits = 0; }
extern "C" __attribute__((visibility("default"))) int vk_page_hits(void) { return vkjit::page().hits; }
