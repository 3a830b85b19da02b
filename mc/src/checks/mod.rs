mod compose;
mod generation;
mod matching;
mod parsing;
mod process;
mod reader;
mod sched;

use crate::ctx::Ctx;

pub use generation::gen_one;

pub fn run(ctx: &Ctx) -> i32 {
    match ctx.prop.as_str() {
        "C01" => matching::c01(ctx),
        "C02" => matching::c02(ctx),
        "C03" => matching::c03(ctx),
        "C04" => matching::c04(ctx),
        "C05" => matching::c05(ctx),
        "C07" => matching::c07(ctx),
        "C08" => matching::c08(ctx),
        "C09" => matching::c09(ctx),
        "C10" => matching::c10(ctx),
        "C11" => matching::c11(ctx),
        "C06" => generation::c06(ctx),
        "C12" => generation::c12(ctx),
        "C13" => parsing::c13(ctx),
        "C14" => parsing::c14(ctx),
        "C15" => parsing::c15(ctx),
        "C16" => process::c16(ctx),
        "C17" => generation::c17(ctx),
        "C18" => process::c18(ctx),
        "C19" => compose::c19(ctx),
        "C20" => compose::c20(ctx),
        "C21" => generation::c21(ctx),
        "C22" => generation::c22(ctx),
        "C23" => generation::c23(ctx),
        other => {
            eprintln!("no check for {}", other);
            2
        }
    }
}
