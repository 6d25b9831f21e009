PENDING={}
exec(open(os.path.join(V,"tools","notes.py")).read())
ext("C01")
ext("C02")
ext("C03")
ext("C04")
ext("C05",race=True)
ext("C06")
ext("C08")
ext("C12")
ext("C13")
root("C13",files=("rootlib",),libs=("vh","axh"))
root("C07",files=("rootlib",),libs=("vh","axh"))
root("C09",files=("rootlib",),libs=("vh","axh"))
root("C10",files=("rootlib",),libs=("vh","axh"))
ext("C11")
root("C11",files=("rootlib","c09"),libs=("vh","axh"))
ext("C28",libs=("vh",))
root("C28",libs=("vh",))
inpkg("C21","profiles")
root("C20",files=("rootlib","rootsim","rootenc"),libs=("vh","axh"))
root("C24",files=("rootlib","rootsim"),libs=("vh","axh"))
inpkg("C23","crayfish",race=True)
root("C17",files=("rootlib","rootsim"),libs=("vh","axh"))
root("C15",files=("rootlib","rootsim","rootacct"),libs=("vh","axh"))
root("C15",files=("rootlib","rootsim","rootacct"),libs=("vh","axh"),race=True,run="TestVerifC15Race")
root("C14",files=("rootlib","rootsim","rootacct","rootcdn"),libs=("vh","axh"))
root("C22",files=("rootlib","rootsim","rootacct"),libs=("vh","axh"))
root("C22",files=("rootlib","rootsim","rootacct"),libs=("vh","axh"),race=True,run="TestVerifC22Race")
root("C16",files=("rootlib","rootsim","rootacct","rootws"),libs=("vh","axh"))
root("C16",files=("rootlib","rootsim","rootacct","rootws"),libs=("vh","axh"),race=True,run="TestVerifC16Race")

root("C26",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootws"),libs=("vh","axh"),zk=True)
root("C18",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp"),libs=("vh","axh"),zk=True)
root("C25",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootws","rootenc","c26"),libs=("vh","axh"),zk=True)
root("C27",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootenc"),libs=("vh","axh"),zk=True)
ext("C19",libs=("vh",))
ext("C33",libs=("vh",))
root("C29",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootws"),libs=("vh","axh"),zk=True)
root("C30",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp"),libs=("vh","axh"),zk=True)
root("C31",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp"),libs=("vh","axh"),zk=True)
root("C32",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootenc","c27"),libs=("vh","axh"),zk=True)
root("C34",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootws","rootenc","c27","c22","c31"),libs=("vh","axh"),zk=True)
root("C35",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootws","rootenc","c27"),libs=("vh","axh"),zk=True)
root("C36",files=("rootlib","rootsim","rootacct","rootcdn","rootgrp","rootws","rootenc","c27","c35"),libs=("vh","axh"),zk=True,race=True)
