// First object on the link line: marks where the library's globals begin.
extern "C" {
extern char sim_img_data_begin[16]; extern char sim_img_bss_begin[16];
char sim_img_data_begin[16] = {1};
char sim_img_bss_begin[16];
void sim_capture_pristine();
static void mark_begin() { sim_capture_pristine(); }
__attribute__((section(".init_array"), used)) void (*sim_ctor_begin)() = mark_begin;
}
