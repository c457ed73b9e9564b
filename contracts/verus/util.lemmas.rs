pub open spec fn cat<T: AsRef>(s: Seq<T>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().bytes() } }
