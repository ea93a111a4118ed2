extern "C" {
char sim_img_data_end[16] = {1};
char sim_img_bss_end[16];
}
