fn main() { symrt::main(h_num::TABLE) }
