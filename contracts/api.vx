// ------------------------------------------------------------- the public entry points


pub mod f_api {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_path_lemmas};
//@fn JsonPath::query props=C04,C05,~C01,~C02,~C03,~C07,~C08,~C09
@ensures
vals($r.0@) == nodes(rs($self.0, *$1, *$1)),
//@end
//@fn JsonPath::query_located props=C04,C05,C06,~C01,~C02,~C03,~C07,~C08,~C09,~C13,~C15,~C16
@ensures
lvals($r.0@) == rs($self.0, *$1, *$1),
//@end
//@fn <Value as JsonPathExt>::json_path props=C05
@ensures
vals($r.0@) == nodes(rs($1.0, *$self, *$self)),
//@end
}
pub use f_api::*;
