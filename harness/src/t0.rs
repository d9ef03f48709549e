use crate::base::*;
use crate::sym::*;
use osu_file_parser::*;
harnesses! {
    t0_int / t0_int__count (11) |p| {
        if p==0 {return;}
        let mut t=vec![];
        let v=num(&mut t,p as usize,false);
        let s=String::from_utf8(t).unwrap();
        match s.parse::<i32>() {
            Ok(x)=>{ chk!(x as i64==v); reach(1); let o=x.to_string(); trace(&o); chk!(o==s);}
            Err(_)=>{ chk!(v>i32::MAX as i64); reach(2);}
        }
    }
    t0_dec / t0_dec__count (20) |p| {
        if p==0 {return;}
        let mut t=vec![];
        num(&mut t,(p as usize+1)/2,p%2==1);
        t.push(b'.');
        let d=digits(2); t.extend(d);
        let s=String::from_utf8(t).unwrap();
        let d=osu_file::types::Decimal::from(&s[..]);
        let o=d.to_string();
        trace(&o);
        reach(1);
        chk!(o==s);
    }
    t0_ver / t0_ver__count (4) |p| {
        let mut t=b"1.5,2,".to_vec();
        num(&mut t,p as usize+1,p%2==1);
        t.extend_from_slice(b",3,4,5");
        let v=ver();
        let s=String::from_utf8(t).unwrap();
        if let Ok(Some(x))=timingpoints::TimingPoints::from_str(&s,v) {
            let o=x.to_string(v).unwrap();
            trace(&o);
            reach(1);
            if v==4 { chk!(o.starts_with("1.5,2,")); }
        }
    }
}
