%file erd
%enum EntityFieldType display
%enum EntityFieldKey
%struct EntityField
%struct EntityDefinition
%enum EntityPath noeq derives=PartialEq derives=Eq derives=Hash
%struct EntityRelation
%enum ModuleEntry
%struct Module
%verbatim
/// What a path names: a table, or a field of a table.
pub enum Named { Table(Seq<char>), Column(Seq<char>, Seq<char>) }
impl EntityPath {
    pub open spec fn named(self) -> Named { match self { EntityPath::Entity(e) => Named::Table(e@), EntityPath::Field(e, f) => Named::Column(e@, f@) } }
}
