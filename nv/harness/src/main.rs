fn main() {
    // the parallel iterators of the code under contract run on one worker: the path explorer replays schedules deterministically
    unsafe { std::env::set_var("RAYON_NUM_THREADS", "1") };
    nvrt::main_with(&nvharness::harnesses());
}
