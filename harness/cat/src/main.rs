fn main() { symrt::main(h_cat::TABLE) }
