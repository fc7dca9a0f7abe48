#undef main
int main(int argc, char **argv) {
    g_K = nondet_g_u64(); g_evk = G_EV(g_K); g_W3 = nondet_g_u64(); g_W = nondet_g_u64(); g_W2 = nondet_g_u64();
    int r = vf_main(argc, argv);
    __CPROVER_assert(!VF_CHK_C23 || (G_ACCEPT || !g_optsdone || (r & 255) != 0), "C23: a rejected offset ends with an error status");
    __CPROVER_assert(!VF_CHK_C23 || (!(g_optsdone && G_ACCEPT && !g_fail) || g_entered), "C23: an acceptable offset is accepted");
    __CPROVER_assert(!VF_CHK_C21 || (g_fail || !g_entered || g_done == g_in / 8), "C21: every complete event has been written when the program ends");
    return 0;
}
