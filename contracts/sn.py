"""Shapes of schema nodes (shared by C06, C10, C16, C18, C20, C21)."""
from .dt import *
from pyvc import interp
from yangson import schemanode as SNM
from yangson.enumerations import ContentType
from yangson.xpathast import Expr

N = "yangson.schemanode:"
NS = SNM.NodeStatus
CT = EnumS(ContentType)
EXPR = ObjS(Expr)
KINDS = (SNM.ContainerNode, SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ChoiceNode, SNM.CaseNode,
         SNM.AnydataNode, SNM.AnyxmlNode, SNM.GroupNode, SNM.RpcActionNode, SNM.NotificationNode)
NODE = ObjS(*KINDS)
INNER = (SNM.ContainerNode, SNM.ListNode, SNM.ChoiceNode, SNM.CaseNode, SNM.GroupNode, SNM.SchemaTreeNode,
         SNM.RpcActionNode, SNM.NotificationNode, SNM.InputNode, SNM.OutputNode)
INTERNAL = ObjS(*INNER)
CASES = ObjS(SNM.CaseNode)
attrs(SNM.SchemaNode, name=Str, ns=Str, parent=Opt(INTERNAL), when=Opt(EXPR), _ctype=Opt(CT), _status=Opt(EnumS(NS)))
attrs(SNM.InternalNode, children=ListS(NODE), _mandatory_children=TupS(SetS(NODE), SetS(NODE)))
attrs(SNM.ContainerNode, presence=Bool)
attrs(SNM.SequenceNode, min_elements=Int, max_elements=Opt(Int), user_ordered=Bool)
attrs(SNM.LeafNode, _mandatory=Bool)
attrs(SNM.AnyContentNode, _mandatory=Bool)
attrs(SNM.ChoiceNode, _mandatory=Bool)
LEAF, LLIST, LIST = ObjS(SNM.LeafNode), ObjS(SNM.LeafListNode), ObjS(SNM.ListNode)
CONT, CHOICE, ANYD, ANYX = ObjS(SNM.ContainerNode), ObjS(SNM.ChoiceNode), ObjS(SNM.AnydataNode), ObjS(SNM.AnyxmlNode)
CASE, GROUP, ROOT = ObjS(SNM.CaseNode), ObjS(SNM.GroupNode), ObjS(SNM.SchemaTreeNode)


def a_iname(c, o, a, kw):
    return S("str", uf("iname", I, STR)(o.ref))


def a_ctype(c, o, a, kw):
    return CT.wrap(uf("content_type", I, CT.sort)(o.ref))


def abstract_nodes():
    AbstractContract(SNM.SchemaNode, "iname", a_iname, always=True)
    AbstractContract(SNM.SchemaNode, "content_type", a_ctype, always=True)
