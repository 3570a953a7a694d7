/*
 * simvfs: a SQLite VFS shim that puts the disk below SQLite under the simulator's control.
 *
 * - wraps the default VFS and becomes the default itself
 * - counts I/O events (per class) and injects one armed fault at the n-th matching event
 * - knows which simulated process issued an operation; after a simulated crash every further
 *   operation of that process fails without effect (locks are still released)
 * - logs writes/truncates since the last sync of a file, so that a simulated power loss can keep,
 *   drop or tear any of them
 */
#include <sqlite3.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { EV_WRITE=1, EV_SYNC=2, EV_TRUNC=4, EV_DELETE=8, EV_OPEN=16, EV_READ=32, EV_LOCK=64 };
enum { FK_NONE=0, FK_CRASH_BEFORE=1, FK_CRASH_AFTER=2, FK_CRASH_TORN=3, FK_IOERR=4, FK_FULL=5, FK_SHORT=6 };

#define MAXPID 4096
static unsigned char g_dead[MAXPID];
static int g_cur = 0;
static int64_t g_events[7];      /* totals per class bit index */
static int64_t g_matched;        /* matching events since arm */
static int g_mask, g_kind, g_count, g_fired;
static int64_t g_n;
static uint32_t g_tear;          /* tear position seed */
static int g_fire_class;         /* class bit of the event at which the fault fired first */
static int g_suspended;         /* harness-internal section: no counting, no faults */

typedef struct Pend { int is_trunc; sqlite3_int64 off; int n; unsigned char *buf; struct Pend *next; } Pend;
typedef struct FState {
  char *path; unsigned char *base; sqlite3_int64 base_n; int has_base;
  Pend *head, *tail; struct FState *next;
} FState;
static FState *g_files;

typedef struct SimFile { sqlite3_file base; int pid; FState *st; int is_tmp; sqlite3_file *real; } SimFile;
static sqlite3_vfs *g_root;
static sqlite3_vfs g_vfs;

static int bitidx(int c){ int i=0; while(c>1){c>>=1;i++;} return i; }

static FState *fstate(const char *path){
  FState *f;
  for(f=g_files; f; f=f->next) if(!strcmp(f->path,path)) return f;
  f=calloc(1,sizeof *f); f->path=strdup(path); f->next=g_files; g_files=f; return f;
}
static void fclear(FState *f){
  Pend *p=f->head,*q; while(p){q=p->next; free(p->buf); free(p); p=q;}
  f->head=f->tail=0; free(f->base); f->base=0; f->base_n=0; f->has_base=0;
}
static void fbase(SimFile *s){ /* remember durable content before first unsynced change */
  FState *f=s->st; sqlite3_int64 n=0;
  if(!f||f->has_base) return;
  s->real->pMethods->xFileSize(s->real,&n);
  f->base=malloc(n?n:1); f->base_n=n; f->has_base=1;
  if(n) s->real->pMethods->xRead(s->real,f->base,(int)n,0);
}
static void fpend(SimFile *s,int tr,sqlite3_int64 off,const void*b,int n){
  FState *f=s->st; Pend *p;
  if(!f) return;
  p=calloc(1,sizeof *p); p->is_trunc=tr; p->off=off; p->n=n;
  if(n){p->buf=malloc(n); memcpy(p->buf,b,n);}
  if(f->tail) f->tail->next=p; else f->head=p;
  f->tail=p;
}

/* returns fault kind to apply at this event, or FK_NONE */
static int event(int cls){
  if(g_suspended) return FK_NONE;
  g_events[bitidx(cls)]++;
  if(g_kind==FK_NONE || !(g_mask&cls)) return FK_NONE;
  g_matched++;
  if(g_matched<g_n) return FK_NONE;
  if(g_count>0 && g_matched>=g_n+g_count) return FK_NONE;
  g_fired++;
  if(g_fired==1) g_fire_class=cls;
  if(g_kind<=FK_CRASH_TORN && g_cur<MAXPID) g_dead[g_cur]=1;
  return g_kind;
}
static int dead(SimFile *s){ return (s->pid<MAXPID && g_dead[s->pid]) || (g_cur<MAXPID && g_dead[g_cur]); }

static int xClose(sqlite3_file *f){ SimFile *s=(SimFile*)f; int rc=SQLITE_OK; if(s->real->pMethods) rc=s->real->pMethods->xClose(s->real); return rc; }
static int xRead(sqlite3_file *f,void*b,int n,sqlite3_int64 o){
  SimFile *s=(SimFile*)f; int k;
  if(!s->is_tmp){ if(dead(s)) return SQLITE_IOERR_READ; k=event(EV_READ); if(k) return SQLITE_IOERR_READ; }
  return s->real->pMethods->xRead(s->real,b,n,o);
}
static int xWrite(sqlite3_file *f,const void*b,int n,sqlite3_int64 o){
  SimFile *s=(SimFile*)f; int k,rc,m;
  if(s->is_tmp) return s->real->pMethods->xWrite(s->real,b,n,o);
  if(dead(s)) return SQLITE_IOERR_WRITE;
  k=event(EV_WRITE);
  if(k==FK_CRASH_BEFORE||k==FK_IOERR) return SQLITE_IOERR_WRITE;
  if(k==FK_FULL) return SQLITE_FULL;
  if(k==FK_CRASH_TORN||k==FK_SHORT){
    m = n>0 ? (int)(g_tear % (uint32_t)n) : 0;
    fbase(s);
    if(m){ s->real->pMethods->xWrite(s->real,b,m,o); fpend(s,0,o,b,m); }
    return k==FK_SHORT ? SQLITE_FULL : SQLITE_IOERR_WRITE;
  }
  fbase(s);
  rc=s->real->pMethods->xWrite(s->real,b,n,o);
  if(rc==SQLITE_OK) fpend(s,0,o,b,n);
  if(k==FK_CRASH_AFTER) return SQLITE_IOERR_WRITE;
  return rc;
}
static int xTruncate(sqlite3_file *f,sqlite3_int64 n){
  SimFile *s=(SimFile*)f; int k,rc;
  if(s->is_tmp) return s->real->pMethods->xTruncate(s->real,n);
  if(dead(s)) return SQLITE_IOERR_TRUNCATE;
  k=event(EV_TRUNC);
  if(k && k!=FK_CRASH_AFTER) return SQLITE_IOERR_TRUNCATE;
  fbase(s);
  rc=s->real->pMethods->xTruncate(s->real,n);
  if(rc==SQLITE_OK) fpend(s,1,n,0,0);
  if(k) return SQLITE_IOERR_TRUNCATE;
  return rc;
}
static int xSync(sqlite3_file *f,int fl){
  SimFile *s=(SimFile*)f; int k;
  if(s->is_tmp) return SQLITE_OK;
  if(dead(s)) return SQLITE_IOERR_FSYNC;
  k=event(EV_SYNC);
  if(k==FK_CRASH_AFTER){ if(s->st) fclear(s->st); return SQLITE_IOERR_FSYNC; }
  if(k) return SQLITE_IOERR_FSYNC;
  if(s->st) fclear(s->st);
  return SQLITE_OK; /* scratch files live on tmpfs: no real sync needed */
}
static int xFileSize(sqlite3_file *f,sqlite3_int64*p){ SimFile *s=(SimFile*)f; if(!s->is_tmp&&dead(s)) return SQLITE_IOERR_FSTAT; return s->real->pMethods->xFileSize(s->real,p); }
static int xLock(sqlite3_file *f,int l){ SimFile *s=(SimFile*)f; if(!s->is_tmp&&dead(s)) return SQLITE_IOERR_LOCK; return s->real->pMethods->xLock(s->real,l); }
static int xUnlock(sqlite3_file *f,int l){ SimFile *s=(SimFile*)f; return s->real->pMethods->xUnlock(s->real,l); }
static int xCheckReservedLock(sqlite3_file *f,int*o){ SimFile *s=(SimFile*)f; if(!s->is_tmp&&dead(s)) return SQLITE_IOERR_CHECKRESERVEDLOCK; return s->real->pMethods->xCheckReservedLock(s->real,o); }
static int xFileControl(sqlite3_file *f,int op,void*a){ SimFile *s=(SimFile*)f; return s->real->pMethods->xFileControl(s->real,op,a); }
static int xSectorSize(sqlite3_file *f){ SimFile *s=(SimFile*)f; return s->real->pMethods->xSectorSize(s->real); }
static int xDevChar(sqlite3_file *f){ SimFile *s=(SimFile*)f; (void)s; return SQLITE_IOCAP_UNDELETABLE_WHEN_OPEN*0; }
static int xShmMap(sqlite3_file *f,int pg,int sz,int ext,void volatile**pp){ SimFile *s=(SimFile*)f; if(dead(s)) return SQLITE_IOERR_SHMMAP; return s->real->pMethods->xShmMap(s->real,pg,sz,ext,pp); }
static int xShmLock(sqlite3_file *f,int o,int n,int fl){ SimFile *s=(SimFile*)f; if(dead(s)&&(fl&SQLITE_SHM_LOCK)) return SQLITE_IOERR_SHMLOCK; return s->real->pMethods->xShmLock(s->real,o,n,fl); }
static void xShmBarrier(sqlite3_file *f){ SimFile *s=(SimFile*)f; s->real->pMethods->xShmBarrier(s->real); }
static int xShmUnmap(sqlite3_file *f,int d){ SimFile *s=(SimFile*)f; return s->real->pMethods->xShmUnmap(s->real,dead(s)?0:d); }

static sqlite3_io_methods g_io={2,xClose,xRead,xWrite,xTruncate,xSync,xFileSize,xLock,xUnlock,xCheckReservedLock,
  xFileControl,xSectorSize,xDevChar,xShmMap,xShmLock,xShmBarrier,xShmUnmap,0,0};

static int vOpen(sqlite3_vfs*v,const char*z,sqlite3_file*f,int fl,int*of){
  SimFile *s=(SimFile*)f; int rc,k;
  s->base.pMethods=0; s->pid=g_cur; s->st=0;
  s->is_tmp = (z==0) || (fl&(SQLITE_OPEN_TEMP_DB|SQLITE_OPEN_TEMP_JOURNAL|SQLITE_OPEN_TRANSIENT_DB|SQLITE_OPEN_SUBJOURNAL))!=0;
  s->real=(sqlite3_file*)&s[1];
  memset(s->real,0,g_root->szOsFile);
  if(!s->is_tmp){
    if(g_cur<MAXPID&&g_dead[g_cur]) return SQLITE_CANTOPEN;
    k=event(EV_OPEN); if(k&&k!=FK_CRASH_AFTER) return SQLITE_CANTOPEN;
  }
  rc=g_root->xOpen(g_root,z,s->real,fl,of);
  if(s->real->pMethods) s->base.pMethods=&g_io;
  if(rc==SQLITE_OK&&!s->is_tmp) s->st=fstate(z);
  return rc;
}
static int vDelete(sqlite3_vfs*v,const char*z,int d){
  int k;
  if(g_cur<MAXPID&&g_dead[g_cur]) return SQLITE_IOERR_DELETE;
  k=event(EV_DELETE); if(k&&k!=FK_CRASH_AFTER) return SQLITE_IOERR_DELETE;
  { FState *f; for(f=g_files;f;f=f->next) if(!strcmp(f->path,z)) fclear(f); }
  k = g_root->xDelete(g_root,z,d);
  return (g_cur<MAXPID&&g_dead[g_cur])?SQLITE_IOERR_DELETE:k;
}
static int vAccess(sqlite3_vfs*v,const char*z,int f,int*o){ return g_root->xAccess(g_root,z,f,o); }
static int vFull(sqlite3_vfs*v,const char*z,int n,char*o){ return g_root->xFullPathname(g_root,z,n,o); }
static void*vDlOpen(sqlite3_vfs*v,const char*z){ return g_root->xDlOpen(g_root,z); }
static void vDlError(sqlite3_vfs*v,int n,char*z){ g_root->xDlError(g_root,n,z); }
static void(*vDlSym(sqlite3_vfs*v,void*h,const char*z))(void){ return g_root->xDlSym(g_root,h,z); }
static void vDlClose(sqlite3_vfs*v,void*h){ g_root->xDlClose(g_root,h); }
static uint64_t g_rand=88172645463325252ull;
static int vRandom(sqlite3_vfs*v,int n,char*z){ /* deterministic salts */
  int i; for(i=0;i<n;i++){ g_rand^=g_rand<<13; g_rand^=g_rand>>7; g_rand^=g_rand<<17; z[i]=(char)(g_rand>>24);} return n; }
static int vSleep(sqlite3_vfs*v,int us){ return us; }
static double g_now=2460000.5;
static int vTime(sqlite3_vfs*v,double*o){ *o=g_now; return SQLITE_OK; }
static int vTime64(sqlite3_vfs*v,sqlite3_int64*o){ *o=(sqlite3_int64)(g_now*86400000.0); return SQLITE_OK; }
static int vErr(sqlite3_vfs*v,int n,char*z){ return g_root->xGetLastError?g_root->xGetLastError(g_root,n,z):0; }

int simvfs_install(void){
  if(g_root) return 0;
  sqlite3_initialize();
  g_root=sqlite3_vfs_find(0);
  if(!g_root) return 1;
  memset(&g_vfs,0,sizeof g_vfs);
  g_vfs.iVersion=2; g_vfs.szOsFile=sizeof(SimFile)+g_root->szOsFile; g_vfs.mxPathname=g_root->mxPathname;
  g_vfs.zName="simvfs"; g_vfs.xOpen=vOpen; g_vfs.xDelete=vDelete; g_vfs.xAccess=vAccess; g_vfs.xFullPathname=vFull;
  g_vfs.xDlOpen=vDlOpen; g_vfs.xDlError=vDlError; g_vfs.xDlSym=vDlSym; g_vfs.xDlClose=vDlClose;
  g_vfs.xRandomness=vRandom; g_vfs.xSleep=vSleep; g_vfs.xCurrentTime=vTime; g_vfs.xGetLastError=vErr; g_vfs.xCurrentTimeInt64=vTime64;
  return sqlite3_vfs_register(&g_vfs,1);
}
void simvfs_reset(uint64_t seed){ /* start of a run */
  FState *f=g_files,*n;
  memset(g_dead,0,sizeof g_dead); memset(g_events,0,sizeof g_events);
  g_cur=0; g_suspended=0; g_kind=FK_NONE; g_mask=g_count=g_fired=0; g_matched=0; g_n=0; g_fire_class=0;
  g_rand=seed*2862933555777941757ull+3037000493ull; if(!g_rand) g_rand=1;
  sqlite3_randomness(0,0); /* re-seed SQLite's PRNG from vRandom */
  /* file handles may still be referenced by open connections: only forget logged data */
  for(;f;f=n){ n=f->next; fclear(f); }
}
void simvfs_forget(void){ /* no connection is open: drop per-file records */
  FState *f=g_files,*n; for(;f;f=n){ n=f->next; fclear(f); free(f->path); free(f);} g_files=0; }
void simvfs_set_current(int pid){ g_cur=pid; }
void simvfs_kill(int pid){ if(pid<MAXPID) g_dead[pid]=1; }
int simvfs_is_dead(int pid){ return pid<MAXPID?g_dead[pid]:0; }
void simvfs_arm(int kind,int mask,int64_t n,int count,uint32_t tear){ g_kind=kind;g_mask=mask;g_n=n;g_count=count;g_tear=tear;g_matched=0;g_fired=0;g_fire_class=0; }
/* per-client arming and counters: exchanged when the simulated scheduler switches clients */
void simvfs_save(int64_t *o){ int i; o[0]=g_kind;o[1]=g_mask;o[2]=g_n;o[3]=g_count;o[4]=g_tear;o[5]=g_matched;o[6]=g_fired;o[7]=g_fire_class; for(i=0;i<7;i++) o[8+i]=g_events[i]; }
void simvfs_load(const int64_t *o){ int i; g_kind=(int)o[0];g_mask=(int)o[1];g_n=o[2];g_count=(int)o[3];g_tear=(uint32_t)o[4];g_matched=o[5];g_fired=(int)o[6];g_fire_class=(int)o[7]; for(i=0;i<7;i++) g_events[i]=o[8+i]; }
void simvfs_suspend(int on){ g_suspended=on; }
void simvfs_disarm(void){ g_kind=FK_NONE; }
int simvfs_fired(void){ return g_fired; }
int simvfs_fire_class(void){ return g_fire_class; }
int64_t simvfs_events(int cls){ return g_events[bitidx(cls)]; }
int64_t simvfs_events_mask(int mask){ int i; int64_t t=0; for(i=0;i<7;i++) if(mask&(1<<i)) t+=g_events[i]; return t; }
int64_t simvfs_matched(void){ return g_matched; }

/*
 * Power loss: rebuild every file with unsynced changes from its last synced content plus a chosen
 * part of the later changes. mode 0: none survive; 1: all survive; 2: a prefix; 3: any subset, the last may be torn.
 * Returns the number of files changed.
 */
int simvfs_powerloss(uint64_t seed,int mode){
  FState *f; int changed=0; uint64_t r=seed*6364136223846793005ull+1442695040888963407ull;
  #define RND() (r^=r<<13, r^=r>>7, r^=r<<17, r)
  if(!r) r=1;
  for(f=g_files; f; f=f->next){
    Pend *p; int np=0,i=0; sqlite3_int64 cap,n; unsigned char *img; FILE *fp;
    if(!f->has_base) continue;
    for(p=f->head;p;p=p->next) np++;
    cap=f->base_n; for(p=f->head;p;p=p->next) if(p->off+p->n>cap) cap=p->off+p->n;
    img=calloc(cap?cap:1,1); memcpy(img,f->base,f->base_n); n=f->base_n;
    { int keep = mode==0?0: mode==1?np: (int)(RND()%(uint64_t)(np+1));
      for(p=f->head;p;p=p->next,i++){
        int take = mode==3 ? (int)(RND()&1) : i<keep; int m=p->n;
        if(!take) continue;
        if(mode==3 && !p->is_trunc && (RND()%4)==0) { m=(int)(RND()%(uint64_t)(p->n+1)); m&=~511; }
        if(p->is_trunc){ if(p->off<n) n=p->off; else { memset(img+n,0,(p->off<=cap?p->off:cap)-n); n=p->off<=cap?p->off:cap; } }
        else { if(p->off>n) memset(img+n,0,p->off-n); memcpy(img+p->off,p->buf,m); if(p->off+m>n) n=p->off+m; }
      } }
    fp=fopen(f->path,"wb");
    if(fp){ if(n) fwrite(img,1,n,fp); fclose(fp); changed++; }
    free(img); fclear(f);
  }
  return changed;
}
