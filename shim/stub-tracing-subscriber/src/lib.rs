//! Offline stand-in: a registry that records nothing.
use tracing::{span, Event, Metadata, Subscriber};
#[derive(Default)]
pub struct Registry;
impl Subscriber for Registry {
    fn enabled(&self, _: &Metadata<'_>) -> bool { false }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id { span::Id::from_u64(1) }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
pub mod layer { pub trait SubscriberExt: tracing::Subscriber + Sized { fn with<L>(self, _: L) -> Self { self } } impl<S: tracing::Subscriber> SubscriberExt for S {} }
