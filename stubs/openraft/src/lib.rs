//! Signature-only stand-in for openraft 0.9 (no behaviour).
#![allow(unused_variables, clippy::all)]
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::{collections::{BTreeMap, BTreeSet}, fmt::{Debug, Display}, future::Future, hash::Hash, marker::PhantomData, ops::RangeBounds, sync::Arc, time::Duration};
pub mod add_async_trait {}
pub trait OptionalSend: Send {} impl<T: Send + ?Sized> OptionalSend for T {}
pub trait OptionalSync: Sync {} impl<T: Sync + ?Sized> OptionalSync for T {}
pub trait NodeId: Sized + Copy + Clone + Default + Eq + Ord + Hash + Debug + Display + Send + Sync + Serialize + DeserializeOwned + 'static {}
impl<T> NodeId for T where T: Sized + Copy + Clone + Default + Eq + Ord + Hash + Debug + Display + Send + Sync + Serialize + DeserializeOwned + 'static {}
pub trait Node: Eq + Default + Clone + Debug + Send + Sync + Serialize + DeserializeOwned + 'static {}
impl<T> Node for T where T: Eq + Default + Clone + Debug + Send + Sync + Serialize + DeserializeOwned + 'static {}
pub trait AppData: Send + Sync + 'static + Serialize + DeserializeOwned {} impl<T: Send + Sync + 'static + Serialize + DeserializeOwned> AppData for T {}
pub trait AppDataResponse: Send + Sync + 'static {} impl<T: Send + Sync + 'static> AppDataResponse for T {}
pub struct TokioRuntime;
pub trait RaftTypeConfig: Sized + Send + Sync + Debug + Clone + Copy + Default + Eq + Ord + 'static { type D: AppData; type R: AppDataResponse; type NodeId: NodeId; type Node: Node; type Entry: Send; type SnapshotData: Send + 'static; type AsyncRuntime; }
#[macro_export]
macro_rules! declare_raft_types {
    ($(#[$o:meta])* $vis:vis $id:ident: $($(#[$i:meta])* $t:ident = $ty:ty),* $(,)?) => {
        $(#[$o])* #[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)] #[derive($crate::__serde::Serialize, $crate::__serde::Deserialize)] #[serde(crate = "openraft::__serde")] $vis struct $id {}
        impl $crate::RaftTypeConfig for $id { $(type $t = $ty;)* }
    };
}
pub use serde as __serde;
macro_rules! disp { ($([$($g:tt)*] $t:ty),* $(,)?) => { $( impl<$($g)*> std::fmt::Display for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } )* } }
macro_rules! err { ($([$($g:tt)*] $t:ty),* $(,)?) => { $( impl<$($g)*> std::fmt::Display for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl<$($g)*> std::error::Error for $t {} )* } }
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)] #[serde(bound = "")] pub struct LeaderId<NID: NodeId> { pub term: u64, pub node_id: NID }
pub type CommittedLeaderId<NID> = LeaderId<NID>;
impl<NID: NodeId> LeaderId<NID> { pub fn new(term: u64, node_id: NID) -> Self { unimplemented!() } }
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)] #[serde(bound = "")] pub struct LogId<NID: NodeId> { pub leader_id: CommittedLeaderId<NID>, pub index: u64 }
impl<NID: NodeId> LogId<NID> { pub fn new(l: CommittedLeaderId<NID>, i: u64) -> Self { unimplemented!() } }
disp!([NID: NodeId] LeaderId<NID>, [NID: NodeId] LogId<NID>, [NID: NodeId] Vote<NID>);
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Serialize, Deserialize)] #[serde(bound = "")] pub struct Vote<NID: NodeId> { pub leader_id: LeaderId<NID>, pub committed: bool }
impl<NID: NodeId> Vote<NID> { pub fn new(t: u64, n: NID) -> Self { unimplemented!() } }
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct Membership<NID: NodeId, N: Node> { configs: Vec<BTreeSet<NID>>, nodes: BTreeMap<NID, N> }
impl<NID: NodeId, N: Node> Membership<NID, N> { pub fn new(c: Vec<BTreeSet<NID>>, n: BTreeMap<NID, N>) -> Self { unimplemented!() } pub fn get_joint_config(&self) -> &Vec<BTreeSet<NID>> { unimplemented!() } pub fn nodes(&self) -> std::collections::btree_map::Iter<'_, NID, N> { unimplemented!() } pub fn get_node(&self, id: &NID) -> Option<&N> { unimplemented!() } pub fn voter_ids(&self) -> std::vec::IntoIter<NID> { unimplemented!() } pub fn learner_ids(&self) -> std::vec::IntoIter<NID> { unimplemented!() } }
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct StoredMembership<NID: NodeId, N: Node> { log_id: Option<LogId<NID>>, membership: Membership<NID, N> }
impl<NID: NodeId, N: Node> StoredMembership<NID, N> { pub fn new(l: Option<LogId<NID>>, m: Membership<NID, N>) -> Self { unimplemented!() } pub fn log_id(&self) -> &Option<LogId<NID>> { unimplemented!() } pub fn membership(&self) -> &Membership<NID, N> { unimplemented!() } pub fn voter_ids(&self) -> std::vec::IntoIter<NID> { unimplemented!() } pub fn nodes(&self) -> std::collections::btree_map::Iter<'_, NID, N> { unimplemented!() } }
#[derive(Serialize, Deserialize)] #[serde(bound = "")] pub enum EntryPayload<C: RaftTypeConfig> { Blank, Normal(C::D), Membership(Membership<C::NodeId, C::Node>) }
#[derive(Serialize, Deserialize)] #[serde(bound = "")] pub struct Entry<C: RaftTypeConfig> { pub log_id: LogId<C::NodeId>, pub payload: EntryPayload<C> }
impl<C: RaftTypeConfig> Default for Entry<C> { fn default() -> Self { unimplemented!() } } impl<C: RaftTypeConfig> Debug for Entry<C> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl<C: RaftTypeConfig> Debug for EntryPayload<C> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl<C: RaftTypeConfig> Clone for Entry<C> where C::D: Clone { fn clone(&self) -> Self { unimplemented!() } } impl<C: RaftTypeConfig> Clone for EntryPayload<C> where C::D: Clone { fn clone(&self) -> Self { unimplemented!() } } impl<C: RaftTypeConfig> PartialEq for Entry<C> where C::D: PartialEq { fn eq(&self, o: &Self) -> bool { unimplemented!() } } impl<C: RaftTypeConfig> PartialEq for EntryPayload<C> where C::D: PartialEq { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
disp!([C: RaftTypeConfig] Entry<C>, [C: RaftTypeConfig] EntryPayload<C>);
pub trait MessageSummary<M> { fn summary(&self) -> String; } impl<C: RaftTypeConfig> MessageSummary<Entry<C>> for Entry<C> { fn summary(&self) -> String { unimplemented!() } } impl<C: RaftTypeConfig> MessageSummary<raft::InstallSnapshotRequest<C>> for raft::InstallSnapshotRequest<C> { fn summary(&self) -> String { unimplemented!() } }
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct SnapshotMeta<NID: NodeId, N: Node> { pub last_log_id: Option<LogId<NID>>, pub last_membership: StoredMembership<NID, N>, pub snapshot_id: String }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct StorageIOError<NID: NodeId>(PhantomData<NID>);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum StorageError<NID: NodeId> { Defensive { p: PhantomData<NID> }, IO { source: StorageIOError<NID> } }
err!([NID: NodeId] StorageIOError<NID>, [NID: NodeId] StorageError<NID>);
impl<NID: NodeId> From<StorageIOError<NID>> for StorageError<NID> { fn from(s: StorageIOError<NID>) -> Self { unimplemented!() } }
macro_rules! sio { ($($n:ident)*) => { impl<NID: NodeId> StorageIOError<NID> { $( pub fn $n<E: std::error::Error>(s: &E) -> Self { unimplemented!() } )* } } }
sio!(read_logs write_logs read_vote write_vote read_state_machine write_state_machine write read);
pub mod storage {
    use super::*;
    #[derive(Debug, Clone)] pub struct LogState<C: RaftTypeConfig> { pub last_purged_log_id: Option<LogId<C::NodeId>>, pub last_log_id: Option<LogId<C::NodeId>> }
    #[derive(Debug)] pub struct Snapshot<C: RaftTypeConfig> { pub meta: SnapshotMeta<C::NodeId, C::Node>, pub snapshot: Box<C::SnapshotData> }
    pub struct Adaptor<C, S>(PhantomData<(C, S)>); impl<C: RaftTypeConfig, S: RaftStorage<C>> Adaptor<C, S> { pub fn new(s: S) -> (Self, Self) { unimplemented!() } }
    pub use super::{RaftLogReader, RaftSnapshotBuilder, RaftStorage};
}
pub use storage::{LogState, Snapshot};
pub trait RaftLogReader<C: RaftTypeConfig>: Send + Sync + 'static { fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + Send>(&mut self, r: RB) -> impl Future<Output = Result<Vec<C::Entry>, StorageError<C::NodeId>>> + Send; }
pub trait RaftSnapshotBuilder<C: RaftTypeConfig>: Send + Sync + 'static { fn build_snapshot(&mut self) -> impl Future<Output = Result<Snapshot<C>, StorageError<C::NodeId>>> + Send; }
pub trait RaftStorage<C: RaftTypeConfig>: RaftLogReader<C> + Send + Sync + 'static {
    type LogReader: RaftLogReader<C>; type SnapshotBuilder: RaftSnapshotBuilder<C>;
    fn save_vote(&mut self, v: &Vote<C::NodeId>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
    fn read_vote(&mut self) -> impl Future<Output = Result<Option<Vote<C::NodeId>>, StorageError<C::NodeId>>> + Send;
    fn get_log_state(&mut self) -> impl Future<Output = Result<LogState<C>, StorageError<C::NodeId>>> + Send;
    fn get_log_reader(&mut self) -> impl Future<Output = Self::LogReader> + Send;
    fn append_to_log<I: IntoIterator<Item = C::Entry> + Send>(&mut self, e: I) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
    fn delete_conflict_logs_since(&mut self, l: LogId<C::NodeId>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
    fn purge_logs_upto(&mut self, l: LogId<C::NodeId>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
    fn last_applied_state(&mut self) -> impl Future<Output = Result<(Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>), StorageError<C::NodeId>>> + Send;
    fn apply_to_state_machine(&mut self, e: &[C::Entry]) -> impl Future<Output = Result<Vec<C::R>, StorageError<C::NodeId>>> + Send;
    fn get_snapshot_builder(&mut self) -> impl Future<Output = Self::SnapshotBuilder> + Send;
    fn begin_receiving_snapshot(&mut self) -> impl Future<Output = Result<Box<C::SnapshotData>, StorageError<C::NodeId>>> + Send;
    fn install_snapshot(&mut self, m: &SnapshotMeta<C::NodeId, C::Node>, s: Box<C::SnapshotData>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
    fn get_current_snapshot(&mut self) -> impl Future<Output = Result<Option<Snapshot<C>>, StorageError<C::NodeId>>> + Send;
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)] pub enum SnapshotPolicy { LogsSinceLast(u64), Never }
#[derive(Clone, Debug, Default, Serialize, Deserialize)] pub struct Config { pub cluster_name: String, pub election_timeout_min: u64, pub election_timeout_max: u64, pub heartbeat_interval: u64, pub install_snapshot_timeout: u64, pub send_snapshot_timeout: u64, pub max_payload_entries: u64, pub replication_lag_threshold: u64, #[serde(skip)] pub snapshot_policy: SnapshotPolicy, pub snapshot_max_chunk_size: u64, pub max_in_snapshot_log_to_keep: u64, pub purge_batch_size: u64, pub enable_tick: bool, pub enable_heartbeat: bool, pub enable_elect: bool }
impl Default for SnapshotPolicy { fn default() -> Self { unimplemented!() } }
#[derive(Debug)] pub struct ConfigError(()); err!([] ConfigError);
impl Config { pub fn validate(self) -> Result<Config, ConfigError> { unimplemented!() } }
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)] pub enum ServerState { #[default] Learner, Follower, Candidate, Leader, Shutdown }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct RaftMetrics<NID: NodeId, N: Node> { pub running_state: Result<(), error::Fatal<NID>>, pub id: NID, pub current_term: u64, pub vote: Vote<NID>, pub last_log_index: Option<u64>, pub last_applied: Option<LogId<NID>>, pub snapshot: Option<LogId<NID>>, pub purged: Option<LogId<NID>>, pub state: ServerState, pub current_leader: Option<NID>, pub millis_since_quorum_ack: Option<u64>, pub membership_config: Arc<StoredMembership<NID, N>>, pub replication: Option<BTreeMap<NID, Option<LogId<NID>>>> }
pub mod error {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] pub enum Infallible {}
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum Fatal<NID: NodeId> { StorageError(StorageError<NID>), Panicked, Stopped }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound(serialize = "E: Serialize", deserialize = "E: Deserialize<'de>"))] pub enum RaftError<NID: NodeId, E = Infallible> { APIError(E), Fatal(Fatal<NID>) }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct ForwardToLeader<NID: NodeId, N: Node> { pub leader_id: Option<NID>, pub leader_node: Option<N> }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum CheckIsLeaderError<NID: NodeId, N: Node> { ForwardToLeader(ForwardToLeader<NID, N>), QuorumNotEnough(PhantomData<(NID, N)>) }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum ClientWriteError<NID: NodeId, N: Node> { ForwardToLeader(ForwardToLeader<NID, N>), ChangeMembershipError(ChangeMembershipError<NID>) }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum ChangeMembershipError<NID: NodeId> { InProgress(PhantomData<NID>), EmptyMembership, LearnerNotFound { node_id: NID } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum InitializeError<NID: NodeId, N: Node> { NotAllowed(NotAllowed<NID>), NotInMembers(PhantomData<(NID, N)>) }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct NotAllowed<NID: NodeId>(PhantomData<NID>);
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] pub enum InstallSnapshotError { SnapshotMismatch }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] pub struct NetworkError(()); impl NetworkError { pub fn new<E: std::error::Error + 'static>(e: &E) -> Self { unimplemented!() } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] pub struct Unreachable(()); #[derive(Debug, Clone, PartialEq, Eq)] pub struct Timeout(());
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct RemoteError<NID: NodeId, N: Node, T> { pub target: NID, pub target_node: Option<N>, pub source: T } impl<NID: NodeId, N: Node, T: std::error::Error> RemoteError<NID, N, T> { pub fn new(t: NID, e: T) -> Self { unimplemented!() } }
    #[derive(Debug, Clone, PartialEq, Eq)] pub enum RPCError<NID: NodeId, N: Node, E> { Timeout(Timeout), Unreachable(Unreachable), Network(NetworkError), RemoteError(RemoteError<NID, N, E>) }
    #[derive(Debug)] pub enum WaitError { Timeout(Duration, String), ShuttingDown }
    pub trait TryAsRef<T> { fn try_as_ref(&self) -> Option<&T>; }
    impl<NID: NodeId, N: Node> TryAsRef<ForwardToLeader<NID, N>> for ClientWriteError<NID, N> { fn try_as_ref(&self) -> Option<&ForwardToLeader<NID, N>> { unimplemented!() } }
    impl<NID: NodeId, N: Node> TryAsRef<ForwardToLeader<NID, N>> for CheckIsLeaderError<NID, N> { fn try_as_ref(&self) -> Option<&ForwardToLeader<NID, N>> { unimplemented!() } }
    impl<NID: NodeId, E> RaftError<NID, E> { pub fn forward_to_leader<N: Node>(&self) -> Option<&ForwardToLeader<NID, N>> where E: TryAsRef<ForwardToLeader<NID, N>> { unimplemented!() } pub fn api_error(&self) -> Option<&E> { unimplemented!() } pub fn into_api_error(self) -> Option<E> { unimplemented!() } }
    err!([NID: NodeId] Fatal<NID>, [NID: NodeId, E: Debug] RaftError<NID, E>, [NID: NodeId, N: Node] ForwardToLeader<NID, N>, [NID: NodeId, N: Node] CheckIsLeaderError<NID, N>, [NID: NodeId, N: Node] ClientWriteError<NID, N>, [NID: NodeId, N: Node] InitializeError<NID, N>, [] InstallSnapshotError, [] NetworkError, [NID: NodeId, N: Node, T: Debug] RemoteError<NID, N, T>, [NID: NodeId, N: Node, T: Debug] RPCError<NID, N, T>, [] WaitError, [] Infallible);
}
pub mod raft {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct VoteRequest<NID: NodeId> { pub vote: Vote<NID>, pub last_log_id: Option<LogId<NID>> }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct VoteResponse<NID: NodeId> { pub vote: Vote<NID>, pub vote_granted: bool, pub last_log_id: Option<LogId<NID>> }
    #[derive(Serialize, Deserialize)] #[serde(bound = "C::Entry: Serialize + DeserializeOwned")] pub struct AppendEntriesRequest<C: RaftTypeConfig> { pub vote: Vote<C::NodeId>, pub prev_log_id: Option<LogId<C::NodeId>>, pub entries: Vec<C::Entry>, pub leader_commit: Option<LogId<C::NodeId>> }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub enum AppendEntriesResponse<NID: NodeId> { Success, PartialSuccess(Option<LogId<NID>>), Conflict, HigherVote(Vote<NID>) }
    #[derive(Debug, Clone, Serialize, Deserialize)] #[serde(bound = "")] pub struct InstallSnapshotRequest<C: RaftTypeConfig> { pub vote: Vote<C::NodeId>, pub meta: SnapshotMeta<C::NodeId, C::Node>, pub offset: u64, pub data: Vec<u8>, pub done: bool }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] #[serde(bound = "")] pub struct InstallSnapshotResponse<NID: NodeId> { pub vote: Vote<NID> }
    #[derive(Serialize, Deserialize)] #[serde(bound = "C::R: Serialize + DeserializeOwned")] pub struct ClientWriteResponse<C: RaftTypeConfig> { pub log_id: LogId<C::NodeId>, pub data: C::R, pub membership: Option<Membership<C::NodeId, C::Node>> }
    impl<C: RaftTypeConfig> Debug for ClientWriteResponse<C> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    impl<C: RaftTypeConfig> Debug for AppendEntriesRequest<C> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
}
pub mod network {
    use super::*; use error::*; use raft::*;
    #[derive(Debug, Clone)] pub struct RPCOption(()); impl RPCOption { pub fn hard_ttl(&self) -> Duration { unimplemented!() } }
    pub trait RaftNetwork<C: RaftTypeConfig>: Send + Sync + 'static {
        fn append_entries(&mut self, r: AppendEntriesRequest<C>, o: RPCOption) -> impl Future<Output = Result<AppendEntriesResponse<C::NodeId>, RPCError<C::NodeId, C::Node, RaftError<C::NodeId>>>> + Send;
        fn install_snapshot(&mut self, r: InstallSnapshotRequest<C>, o: RPCOption) -> impl Future<Output = Result<InstallSnapshotResponse<C::NodeId>, RPCError<C::NodeId, C::Node, RaftError<C::NodeId, InstallSnapshotError>>>> + Send;
        fn vote(&mut self, r: VoteRequest<C::NodeId>, o: RPCOption) -> impl Future<Output = Result<VoteResponse<C::NodeId>, RPCError<C::NodeId, C::Node, RaftError<C::NodeId>>>> + Send;
    }
    pub trait RaftNetworkFactory<C: RaftTypeConfig>: Send + Sync + 'static { type Network: RaftNetwork<C>; fn new_client(&mut self, t: C::NodeId, n: &C::Node) -> impl Future<Output = Self::Network> + Send; }
}
pub use network::{RaftNetwork, RaftNetworkFactory};
pub trait IntoNodes<NID, N> {} impl<NID, N> IntoNodes<NID, N> for BTreeMap<NID, N> {} impl<NID, N> IntoNodes<NID, N> for BTreeSet<NID> {}
pub enum ChangeMembers<NID, N> { ReplaceAllVoters(BTreeSet<NID>), X(N) } impl<NID, N> From<BTreeSet<NID>> for ChangeMembers<NID, N> { fn from(s: BTreeSet<NID>) -> Self { unimplemented!() } }
pub struct Raft<C: RaftTypeConfig>(Arc<()>, PhantomData<fn() -> C>);
impl<C: RaftTypeConfig> Clone for Raft<C> { fn clone(&self) -> Self { unimplemented!() } }
use error::*; use raft::*;
type RE<C, E> = RaftError<<C as RaftTypeConfig>::NodeId, E>; type CWE<C> = ClientWriteError<<C as RaftTypeConfig>::NodeId, <C as RaftTypeConfig>::Node>;
impl<C: RaftTypeConfig> Raft<C> {
    pub async fn new<Net: RaftNetworkFactory<C>, L, S>(id: C::NodeId, c: Arc<Config>, n: Net, l: L, s: S) -> Result<Self, Fatal<C::NodeId>> { unimplemented!() }
    pub async fn append_entries(&self, r: AppendEntriesRequest<C>) -> Result<AppendEntriesResponse<C::NodeId>, RE<C, Infallible>> { unimplemented!() }
    pub async fn vote(&self, r: VoteRequest<C::NodeId>) -> Result<VoteResponse<C::NodeId>, RE<C, Infallible>> { unimplemented!() }
    pub async fn install_snapshot(&self, r: InstallSnapshotRequest<C>) -> Result<InstallSnapshotResponse<C::NodeId>, RE<C, InstallSnapshotError>> { unimplemented!() }
    pub async fn current_leader(&self) -> Option<C::NodeId> { unimplemented!() }
    pub async fn ensure_linearizable(&self) -> Result<Option<LogId<C::NodeId>>, RE<C, CheckIsLeaderError<C::NodeId, C::Node>>> { unimplemented!() }
    pub async fn client_write(&self, d: C::D) -> Result<ClientWriteResponse<C>, RE<C, CWE<C>>> { unimplemented!() }
    pub async fn initialize<T: IntoNodes<C::NodeId, C::Node> + Debug>(&self, n: T) -> Result<(), RE<C, InitializeError<C::NodeId, C::Node>>> { unimplemented!() }
    pub async fn is_initialized(&self) -> Result<bool, Fatal<C::NodeId>> { unimplemented!() }
    pub async fn add_learner(&self, id: C::NodeId, n: C::Node, b: bool) -> Result<ClientWriteResponse<C>, RE<C, CWE<C>>> { unimplemented!() }
    pub async fn change_membership(&self, m: impl Into<ChangeMembers<C::NodeId, C::Node>>, r: bool) -> Result<ClientWriteResponse<C>, RE<C, CWE<C>>> { unimplemented!() }
    pub fn metrics(&self) -> tokio::sync::watch::Receiver<RaftMetrics<C::NodeId, C::Node>> { unimplemented!() }
    pub fn wait(&self, t: Option<Duration>) -> Wait<C> { unimplemented!() }
    pub async fn shutdown(&self) -> Result<(), tokio::task::JoinError> { unimplemented!() }
    pub fn trigger(&self) -> Trigger<'_, C> { unimplemented!() }
}
pub struct Trigger<'r, C: RaftTypeConfig>(&'r Raft<C>); impl<C: RaftTypeConfig> Trigger<'_, C> { pub async fn elect(&self) -> Result<(), Fatal<C::NodeId>> { unimplemented!() } pub async fn heartbeat(&self) -> Result<(), Fatal<C::NodeId>> { unimplemented!() } pub async fn snapshot(&self) -> Result<(), Fatal<C::NodeId>> { unimplemented!() } pub async fn purge_log(&self, u: u64) -> Result<(), Fatal<C::NodeId>> { unimplemented!() } }
pub struct Wait<C: RaftTypeConfig>(PhantomData<fn() -> C>); impl<C: RaftTypeConfig> Wait<C> { pub async fn metrics(&self, f: impl Fn(&RaftMetrics<C::NodeId, C::Node>) -> bool + OptionalSend, m: impl ToString) -> Result<RaftMetrics<C::NodeId, C::Node>, WaitError> { unimplemented!() } }
pub mod testing { pub struct Suite; impl Suite { pub fn test_all<B>(b: B) -> Result<(), std::io::Error> { unimplemented!() } } }
