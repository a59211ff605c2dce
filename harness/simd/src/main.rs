fn main() { symrt::main(h_simd::TABLE) }
