"""Contracts on the functions of /repo, and how each property is decided with them."""
from .props import PROPS, TRUSTED       # noqa: F401

MODULES = ['html','columns','tree','walk','text','inl','rst', 'blk']
