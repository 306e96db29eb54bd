//! The scripted hook of a run, and the record of its invocations.
use crate::client::{Ev, payload, rec, untag};
use akasa_core::mqtt_proto::{QoS, TopicFilter, TopicName, v3, v5};
use akasa_core::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Rule {
    /// connect, connected, publish, published, subscribe, subscribed, unsubscribe, unsubscribed, disconnected
    pub on: String,
    /// client identifier; empty: any
    pub cid: String,
    /// topic or filter; empty: any
    pub topic: String,
    /// applies to the first `count` invocations; 0: all
    pub count: u32,
    /// ms
    pub delay: u64,
    pub fail: bool,
    /// 0: accept; otherwise which refusal
    pub code: u8,
    pub set_topic: Option<String>,
    pub set_qos: Option<u8>,
    pub set_retain: Option<bool>,
    pub set_tag: Option<u64>,
    /// keep only the first `n` filters
    pub keep: Option<usize>,
    /// (topic, tag, qos, retain)
    pub pubs: Vec<(String, u64, u8, bool)>,
    pub subs: Vec<(String, u8)>,
    pub unsubs: Vec<String>,
}
#[derive(Clone)]
pub struct SimHook {
    pub rules: Arc<Vec<Rule>>,
    pub used: Arc<Mutex<Vec<u32>>>,
}
fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::Level0,
        1 => QoS::Level1,
        _ => QoS::Level2,
    }
}
fn note(what: &str, cid: &str, data: String) {
    rec(usize::MAX, 0, Ev::Hook { what: what.into(), cid: cid.into(), data });
}
impl SimHook {
    pub fn new(rules: Vec<Rule>) -> SimHook {
        let n = rules.len();
        SimHook { rules: Arc::new(rules), used: Arc::new(Mutex::new(vec![0; n])) }
    }
    /// The rule for this invocation; waits as long as it says.
    async fn rule(&self, on: &str, cid: &str, topics: &[String], data: String) -> Result<Rule, HookError> {
        let mut hit = Rule::default();
        let mut which = String::new();
        {
            let mut used = self.used.lock().unwrap();
            for (i, r) in self.rules.iter().enumerate() {
                if r.on == on
                    && (r.cid.is_empty() || r.cid == cid)
                    && (r.topic.is_empty() || topics.contains(&r.topic))
                    && (r.count == 0 || used[i] < r.count)
                {
                    used[i] += 1;
                    hit = r.clone();
                    which = format!("rule {i}");
                    break;
                }
            }
        }
        let how = if hit.fail { "fail" } else if hit.code != 0 { "refuse" } else { "accept" };
        note(on, cid, format!("{how} {which} {data}"));
        if hit.delay > 0 {
            tokio::time::sleep(Duration::from_millis(hit.delay)).await;
        }
        note(&format!("{on}:done"), cid, format!("{how} {which} {data}"));
        if hit.fail { Err(HookError::Internal) } else { Ok(hit) }
    }
}
fn actions(r: &Rule) -> Vec<HookAction> {
    let mut v = Vec::new();
    for (t, tag, q, retain) in &r.pubs {
        v.push(HookAction::Publish(PublishAction {
            retain: *retain,
            qos: qos(*q),
            topic_name: TopicName::try_from(t.as_str()).unwrap(),
            payload: payload(*tag, 0).into(),
            payload_is_utf8: None,
            message_expiry_interval: None,
            content_type: None,
        }));
    }
    if !r.subs.is_empty() {
        v.push(HookAction::Subscribe(SubscribeAction(r.subs.iter().map(|(f, q)| (TopicFilter::try_from(f.as_str()).unwrap(), qos(*q))).collect())));
    }
    if !r.unsubs.is_empty() {
        v.push(HookAction::Unsubscribe(UnsubscribeAction(r.unsubs.iter().map(|f| TopicFilter::try_from(f.as_str()).unwrap()).collect())));
    }
    v
}
fn connect_code(c: u8) -> HookConnectCode {
    use HookConnectCode::*;
    [Success, UnspecifiedError, ClientIdentifierNotValid, BadUserNameOrPassword, NotAuthorized, ServerUnavailable, QuotaExceeded, ConnectionRateExceeded][c as usize % 8]
}
fn publish_code(c: u8) -> HookPublishCode {
    use HookPublishCode::*;
    if c == 0 { Success } else { [UnspecifiedError, NotAuthorized, TopicNameInvalid, QuotaExceeded][c as usize % 4] }
}
fn subscribe_code(c: u8) -> HookSubscribeCode {
    use HookSubscribeCode::*;
    if c == 0 { Success } else { [UnspecifiedError, NotAuthorized, TopicFilterInvalid, QuotaExceeded][c as usize % 4] }
}
fn unsubscribe_code(c: u8) -> HookUnsubscribeCode {
    use HookUnsubscribeCode::*;
    if c == 0 { Success } else { [UnspecifiedError, NotAuthorized, TopicFilterInvalid][c as usize % 3] }
}
fn with_qos(p: mqtt_proto::QosPid, q: u8) -> mqtt_proto::QosPid {
    use mqtt_proto::QosPid::*;
    match (p, q) {
        (Level1(p) | Level2(p), 1) => Level1(p),
        (Level1(p) | Level2(p), 2) => Level2(p),
        (x, _) => x,
    }
}

macro_rules! hooks {
    ($v:ident, $S:ty, $before_connect:ident, $after_connect:ident, $before_publish:ident, $after_publish:ident, $before_subscribe:ident,
     $after_subscribe:ident, $before_unsubscribe:ident, $after_unsubscribe:ident, $after_disconnect:ident, $suback:ty, $setq:expr) => {
        async fn $before_connect(&self, _peer: SocketAddr, c: &$v::Connect) -> HookResult<HookConnectCode> {
            let r = self.rule("connect", &c.client_id, &[], String::new()).await?;
            Ok(connect_code(r.code))
        }
        async fn $after_connect(&self, s: &$S, sp: bool) -> HookResult<Vec<HookAction>> {
            let r = self.rule("connected", &s.client_identifier, &[], format!("sp={sp}")).await?;
            Ok(actions(&r))
        }
        async fn $before_publish(&self, s: &$S, _: usize, _: &[u8], p: &mut $v::Publish, changed: &mut bool) -> HookResult<HookPublishCode> {
            let t = p.topic_name.to_string();
            let r = self.rule("publish", &s.client_identifier, &[t], format!("tag={} topic={}", untag(&p.payload).0, &*p.topic_name)).await?;
            if let Some(t) = &r.set_topic {
                p.topic_name = TopicName::try_from(t.as_str()).unwrap();
                *changed = true;
            }
            if let Some(q) = r.set_qos {
                p.qos_pid = with_qos(p.qos_pid, q);
                *changed = true;
            }
            if let Some(x) = r.set_retain {
                p.retain = x;
                *changed = true;
            }
            if let Some(t) = r.set_tag {
                p.payload = payload(t, 0).into();
                *changed = true;
            }
            Ok(publish_code(r.code))
        }
        async fn $after_publish(&self, s: &$S, _: usize, _: &[u8], p: &$v::Publish, changed: bool) -> HookResult<Vec<HookAction>> {
            let t = p.topic_name.to_string();
            let r = self.rule("published", &s.client_identifier, &[t], format!("tag={} changed={changed}", untag(&p.payload).0)).await?;
            Ok(actions(&r))
        }
        async fn $before_subscribe(&self, s: &$S, _: usize, _: &[u8], p: &mut $v::Subscribe, changed: &mut bool) -> HookResult<HookSubscribeCode> {
            let ts: Vec<String> = p.topics.iter().map(|t| t.0.to_string()).collect();
            let r = self.rule("subscribe", &s.client_identifier, &ts, format!("pid={} filters={ts:?}", p.pid.value())).await?;
            if let Some(q) = r.set_qos {
                for t in &mut p.topics {
                    #[allow(clippy::redundant_closure_call)]
                    ($setq)(&mut t.1, qos(q));
                }
                *changed = true;
            }
            if let (Some(t), Some(x)) = (&r.set_topic, p.topics.first_mut()) {
                x.0 = TopicFilter::try_from(t.as_str()).unwrap();
                *changed = true;
            }
            Ok(subscribe_code(r.code))
        }
        async fn $after_subscribe(&self, s: &$S, _: usize, _: &[u8], p: &$v::Subscribe, changed: bool, codes: Option<Vec<$suback>>) -> HookResult<Vec<HookAction>> {
            let ts: Vec<String> = p.topics.iter().map(|t| t.0.to_string()).collect();
            let r = self.rule("subscribed", &s.client_identifier, &ts, format!("pid={} changed={changed} codes={codes:?}", p.pid.value())).await?;
            Ok(actions(&r))
        }
        async fn $before_unsubscribe(&self, s: &$S, _: usize, _: &[u8], p: &mut $v::Unsubscribe, changed: &mut bool) -> HookResult<HookUnsubscribeCode> {
            let ts: Vec<String> = p.topics.iter().map(|t| t.to_string()).collect();
            let r = self.rule("unsubscribe", &s.client_identifier, &ts, format!("pid={} filters={ts:?}", p.pid.value())).await?;
            if let (Some(t), Some(x)) = (&r.set_topic, p.topics.first_mut()) {
                *x = TopicFilter::try_from(t.as_str()).unwrap();
                *changed = true;
            }
            Ok(unsubscribe_code(r.code))
        }
        async fn $after_unsubscribe(&self, s: &$S, _: usize, _: &[u8], p: &$v::Unsubscribe, changed: bool) -> HookResult<Vec<HookAction>> {
            let ts: Vec<String> = p.topics.iter().map(|t| t.to_string()).collect();
            let r = self.rule("unsubscribed", &s.client_identifier, &ts, format!("pid={} changed={changed}", p.pid.value())).await?;
            Ok(actions(&r))
        }
        async fn $after_disconnect(&self, s: &$S, taken_over: bool) -> HookResult<()> {
            self.rule("disconnected", &s.client_identifier, &[], format!("taken_over={taken_over}")).await?;
            Ok(())
        }
    };
}
impl Hook for SimHook {
    hooks!(v5, SessionV5, v5_before_connect, v5_after_connect, v5_before_publish, v5_after_publish, v5_before_subscribe,
        v5_after_subscribe, v5_before_unsubscribe, v5_after_unsubscribe, v5_after_disconnect, v5::SubscribeReasonCode,
        |o: &mut v5::SubscriptionOptions, q| o.max_qos = q);
    hooks!(v3, SessionV3, v3_before_connect, v3_after_connect, v3_before_publish, v3_after_publish, v3_before_subscribe,
        v3_after_subscribe, v3_before_unsubscribe, v3_after_unsubscribe, v3_after_disconnect, v3::SubscribeReturnCode,
        |o: &mut QoS, q| *o = q);
}
