fn main() { symrt::main(h_misc::TABLE) }
