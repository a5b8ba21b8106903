//! Instruments and market data shared by the harnesses.
use quantmath::core::factories::Qrc;
use quantmath::dates::calendar::*;
use quantmath::dates::rules::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::*;
use std::sync::Arc;

pub fn rule(step: u32) -> RcDateRule {
    let cal: RcCalendar = Qrc::new(Arc::new(WeekdayCalendar::new()));
    Qrc::new(Arc::new(BusinessDays::new_step(cal, step)))
}
pub fn null_rule() -> RcDateRule { Qrc::new(Arc::new(NullRule::new())) }
pub fn currency(id: &str, step: u32) -> RcCurrency { RcCurrency::new(Arc::new(Currency::new(id, rule(step)))) }
pub fn equity(id: &str, credit: &str, ccy: RcCurrency, step: u32) -> Equity { Equity::new(id, credit, ccy, rule(step)) }
pub fn rc(i: impl Instrument + 'static) -> RcInstrument { RcInstrument::new(Qrc::new(Arc::new(i))) }
