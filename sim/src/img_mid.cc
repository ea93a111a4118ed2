extern "C" {
static void mark_mid() {}
__attribute__((section(".init_array"), used)) void (*sim_ctor_mid)() = mark_mid;
}
