mod srv;
fn main(){}
