/* atop 2.11: structures of a raw log file on Linux x86-64. */
typedef long long count_t;

struct utsname {
    char sysname[65];
    char nodename[65];
    char release[65];
    char version[65];
    char machine[65];
    char domain[65];
};

struct rawheader {
    unsigned int magic;
    unsigned short aversion;
    unsigned short future1;
    unsigned short future2;
    unsigned short rawheadlen;
    unsigned short rawreclen;
    unsigned short hertz;
    unsigned short pidwidth;
    unsigned short sfuture[5];
    unsigned int sstatlen;
    unsigned int tstatlen;
    struct utsname utsname;
    char cfuture[8];
    unsigned int pagesize;
    int supportflags;
    int osrel;
    int osvers;
    int ossub;
    int cstatlen;
    int ifuture[5];
};

struct rawrecord {
    count_t curtime;
    unsigned short flags;
    unsigned short ncgroups;
    unsigned short sfuture[2];
    unsigned int scomplen;
    unsigned int pcomplen;
    unsigned int interval;
    unsigned int ndeviat;
    unsigned int nactproc;
    unsigned int ntask;
    unsigned int totproc;
    unsigned int totrun;
    unsigned int totslpi;
    unsigned int totslpu;
    unsigned int totzomb;
    unsigned int nexit;
    unsigned int noverflow;
    unsigned int totidle;
    unsigned int ccomplen;
    unsigned int coriglen;
    unsigned int ncgpids;
    unsigned int icomplen;
    unsigned int ifuture;
};

struct freqcnt {
    count_t maxfreq;
    count_t cnt;
    count_t ticks;
};

struct percpu {
    int cpunr;
    count_t stime;
    count_t utime;
    count_t ntime;
    count_t itime;
    count_t wtime;
    count_t Itime;
    count_t Stime;
    count_t steal;
    count_t guest;
    struct freqcnt freqcnt;
    count_t instr;
    count_t cycle;
    count_t cfuture[6];
};

struct cpustat {
    count_t nrcpu;
    count_t devint;
    count_t csw;
    count_t nprocs;
    float lavg1;
    float lavg5;
    float lavg15;
    count_t cfuture[4];
    struct percpu all;
    struct percpu cpu[2048];
};

struct memstat {
    count_t physmem;
    count_t freemem;
    count_t buffermem;
    count_t slabmem;
    count_t cachemem;
    count_t cachedrt;
    count_t totswap;
    count_t freeswap;
    count_t pgscans;
    count_t pgsteal;
    count_t allocstall;
    count_t swouts;
    count_t swins;
    count_t tcpsock;
    count_t udpsock;
    count_t commitlim;
    count_t committed;
    count_t shmem;
    count_t shmrss;
    count_t shmswp;
    count_t slabreclaim;
    count_t stothugepage;
    count_t sfreehugepage;
    count_t shugepagesz;
    count_t vmwballoon;
    count_t zfsarcsize;
    count_t swapcached;
    count_t ksmsharing;
    count_t ksmshared;
    count_t zswapped;
    count_t zswap;
    count_t oomkills;
    count_t compactstall;
    count_t pgmigrate;
    count_t numamigrate;
    count_t pgouts;
    count_t pgins;
    count_t pagetables;
    count_t zswouts;
    count_t zswins;
    count_t ltothugepage;
    count_t lfreehugepage;
    count_t lhugepagesz;
    count_t availablemem;
    count_t anonhugepage;
    count_t cfuture[5];
};

struct ipv4_stats {
    count_t Forwarding;
    count_t DefaultTTL;
    count_t InReceives;
    count_t InHdrErrors;
    count_t InAddrErrors;
    count_t ForwDatagrams;
    count_t InUnknownProtos;
    count_t InDiscards;
    count_t InDelivers;
    count_t OutRequests;
    count_t OutDiscards;
    count_t OutNoRoutes;
    count_t ReasmTimeout;
    count_t ReasmReqds;
    count_t ReasmOKs;
    count_t ReasmFails;
    count_t FragOKs;
    count_t FragFails;
    count_t FragCreates;
};

struct icmpv4_stats {
    count_t InMsgs;
    count_t InErrors;
    count_t InCsumErrors;
    count_t InDestUnreachs;
    count_t InTimeExcds;
    count_t InParmProbs;
    count_t InSrcQuenchs;
    count_t InRedirects;
    count_t InEchos;
    count_t InEchoReps;
    count_t InTimestamps;
    count_t InTimestampReps;
    count_t InAddrMasks;
    count_t InAddrMaskReps;
    count_t OutMsgs;
    count_t OutErrors;
    count_t OutDestUnreachs;
    count_t OutTimeExcds;
    count_t OutParmProbs;
    count_t OutSrcQuenchs;
    count_t OutRedirects;
    count_t OutEchos;
    count_t OutEchoReps;
    count_t OutTimestamps;
    count_t OutTimestampReps;
    count_t OutAddrMasks;
    count_t OutAddrMaskReps;
};

struct udpv4_stats {
    count_t InDatagrams;
    count_t NoPorts;
    count_t InErrors;
    count_t OutDatagrams;
};

struct ipv6_stats {
    count_t Ip6InReceives;
    count_t Ip6InHdrErrors;
    count_t Ip6InTooBigErrors;
    count_t Ip6InNoRoutes;
    count_t Ip6InAddrErrors;
    count_t Ip6InUnknownProtos;
    count_t Ip6InTruncatedPkts;
    count_t Ip6InDiscards;
    count_t Ip6InDelivers;
    count_t Ip6OutForwDatagrams;
    count_t Ip6OutRequests;
    count_t Ip6OutDiscards;
    count_t Ip6OutNoRoutes;
    count_t Ip6ReasmTimeout;
    count_t Ip6ReasmReqds;
    count_t Ip6ReasmOKs;
    count_t Ip6ReasmFails;
    count_t Ip6FragOKs;
    count_t Ip6FragFails;
    count_t Ip6FragCreates;
    count_t Ip6InMcastPkts;
    count_t Ip6OutMcastPkts;
};

struct icmpv6_stats {
    count_t Icmp6InMsgs;
    count_t Icmp6InErrors;
    count_t Icmp6InDestUnreachs;
    count_t Icmp6InPktTooBigs;
    count_t Icmp6InTimeExcds;
    count_t Icmp6InParmProblems;
    count_t Icmp6InEchos;
    count_t Icmp6InEchoReplies;
    count_t Icmp6InGroupMembQueries;
    count_t Icmp6InGroupMembResponses;
    count_t Icmp6InGroupMembReductions;
    count_t Icmp6InRouterSolicits;
    count_t Icmp6InRouterAdvertisements;
    count_t Icmp6InNeighborSolicits;
    count_t Icmp6InNeighborAdvertisements;
    count_t Icmp6InRedirects;
    count_t Icmp6OutMsgs;
    count_t Icmp6OutDestUnreachs;
    count_t Icmp6OutPktTooBigs;
    count_t Icmp6OutTimeExcds;
    count_t Icmp6OutParmProblems;
    count_t Icmp6OutEchoReplies;
    count_t Icmp6OutRouterSolicits;
    count_t Icmp6OutNeighborSolicits;
    count_t Icmp6OutNeighborAdvertisements;
    count_t Icmp6OutRedirects;
    count_t Icmp6OutGroupMembResponses;
    count_t Icmp6OutGroupMembReductions;
};

struct udpv6_stats {
    count_t Udp6InDatagrams;
    count_t Udp6NoPorts;
    count_t Udp6InErrors;
    count_t Udp6OutDatagrams;
};

struct tcp_stats {
    count_t RtoAlgorithm;
    count_t RtoMin;
    count_t RtoMax;
    count_t MaxConn;
    count_t ActiveOpens;
    count_t PassiveOpens;
    count_t AttemptFails;
    count_t EstabResets;
    count_t CurrEstab;
    count_t InSegs;
    count_t OutSegs;
    count_t RetransSegs;
    count_t InErrs;
    count_t OutRsts;
    count_t InCsumErrors;
};

struct netstat {
    struct ipv4_stats ipv4;
    struct icmpv4_stats icmpv4;
    struct udpv4_stats udpv4;
    struct ipv6_stats ipv6;
    struct icmpv6_stats icmpv6;
    struct udpv6_stats udpv6;
    struct tcp_stats tcp;
};

struct perintf {
    char name[16];
    count_t rbyte;
    count_t rpack;
    count_t rerrs;
    count_t rdrop;
    count_t rfifo;
    count_t rframe;
    count_t rcompr;
    count_t rmultic;
    count_t rfuture[4];
    count_t sbyte;
    count_t spack;
    count_t serrs;
    count_t sdrop;
    count_t sfifo;
    count_t scollis;
    count_t scarrier;
    count_t scompr;
    count_t sfuture[4];
    char type;
    count_t speed;
    count_t speedp;
    char duplex;
    count_t cfuture[4];
};

struct intfstat {
    int nrintf;
    struct perintf intf[128];
};

struct mempernuma {
    int numanr;
    float frag;
    count_t totmem;
    count_t freemem;
    count_t filepage;
    count_t dirtymem;
    count_t slabmem;
    count_t slabreclaim;
    count_t active;
    count_t inactive;
    count_t shmem;
    count_t tothp;
    count_t freehp;
    count_t cfuture[2];
};

struct memnuma {
    count_t nrnuma;
    struct mempernuma numa[1024];
};

struct cpupernuma {
    int numanr;
    count_t nrcpu;
    count_t stime;
    count_t utime;
    count_t ntime;
    count_t itime;
    count_t wtime;
    count_t Itime;
    count_t Stime;
    count_t steal;
    count_t guest;
    count_t cfuture[2];
};

struct cpunuma {
    count_t nrnuma;
    struct cpupernuma numa[1024];
};

struct perdsk {
    char name[32];
    count_t nread;
    count_t nrsect;
    count_t nwrite;
    count_t nwsect;
    count_t io_ms;
    count_t avque;
    count_t ndisc;
    count_t ndsect;
    count_t inflight;
    count_t cfuture[3];
};

struct dskstat {
    int ndsk;
    int nmdd;
    int nlvm;
    struct perdsk dsk[1024];
    struct perdsk mdd[256];
    struct perdsk lvm[2048];
};

struct server {
    count_t netcnt;
    count_t netudpcnt;
    count_t nettcpcnt;
    count_t nettcpcon;
    count_t rpccnt;
    count_t rpcbadfmt;
    count_t rpcbadaut;
    count_t rpcbadcln;
    count_t rpcread;
    count_t rpcwrite;
    count_t rchits;
    count_t rcmiss;
    count_t rcnoca;
    count_t nrbytes;
    count_t nwbytes;
    count_t future[8];
};

struct client {
    count_t rpccnt;
    count_t rpcretrans;
    count_t rpcautrefresh;
    count_t rpcread;
    count_t rpcwrite;
    count_t future[8];
};

struct pernfsmount {
    char mountdev[128];
    count_t age;
    count_t bytesread;
    count_t byteswrite;
    count_t bytesdread;
    count_t bytesdwrite;
    count_t bytestotread;
    count_t bytestotwrite;
    count_t pagesmread;
    count_t pagesmwrite;
    count_t future[8];
};

struct mfsmounts {
    int nrmounts;
    struct pernfsmount nfsmnt[64];
};

struct nfstat {
    struct server server;
    struct client client;
    struct mfsmounts nfsmounts;
};

struct percontainer {
    unsigned long ctid;
    unsigned long numproc;
    count_t system;
    count_t user;
    count_t nice;
    count_t uptime;
    count_t physpages;
};

struct contstat {
    int nrcontainer;
    struct percontainer cont[128];
};

struct psi {
    float avg10;
    float avg60;
    float avg300;
    count_t total;
};

struct pressure {
    char present;
    char future[3];
    struct psi cpusome;
    struct psi memsome;
    struct psi memfull;
    struct psi iosome;
    struct psi iofull;
};

struct pergpu {
    char taskstats;
    unsigned char nrprocs;
    char type[13];
    char busid[13];
    int gpunr;
    int gpupercnow;
    int mempercnow;
    count_t memtotnow;
    count_t memusenow;
    count_t samples;
    count_t gpuperccum;
    count_t memperccum;
    count_t memusecum;
};

struct gpustat {
    int nrgpus;
    struct pergpu gpu[32];
};

struct perifb {
    char ibname[12];
    short portnr;
    short lanes;
    count_t rate;
    count_t rcvb;
    count_t sndb;
    count_t rcvp;
    count_t sndp;
    count_t cfuture[4];
};

struct ifbstat {
    int nrports;
    struct perifb ifb[32];
};

struct perllc {
    unsigned char id;
    float occupancy;
    count_t mbm_local;
    count_t mbm_total;
};

struct llcstat {
    int nrllcs;
    struct perllc perllc[256];
};

struct wwwstat {
    count_t accesses;
    count_t totkbytes;
    count_t uptime;
    int bworkers;
    int iworkers;
};

struct sstat {
    struct cpustat cpu;
    struct memstat mem;
    struct netstat net;
    struct intfstat intf;
    struct memnuma memnuma;
    struct cpunuma cpunuma;
    struct dskstat dsk;
    struct nfstat nfs;
    struct contstat cfs;
    struct pressure psi;
    struct gpustat gpu;
    struct ifbstat ifb;
    struct llcstat llc;
    struct wwwstat www;
};

struct gen {
    int tgid;
    int pid;
    int ppid;
    int ruid;
    int euid;
    int suid;
    int fsuid;
    int rgid;
    int egid;
    int sgid;
    int fsgid;
    int nthr;
    char name[16];
    char isproc;
    char state;
    int excode;
    count_t btime;
    count_t elaps;
    char cmdline[256];
    int nthrslpi;
    int nthrslpu;
    int nthrrun;
    int nthridle;
    int ctid;
    int vpid;
    int wasinactive;
    char utsname[16];
    int cgroupix;
    int ifuture[4];
};

struct cpu {
    count_t utime;
    count_t stime;
    int nice;
    int prio;
    int rtprio;
    int policy;
    int curcpu;
    int sleepavg;
    int ifuture[6];
    char wchan[16];
    count_t rundelay;
    count_t blkdelay;
    count_t nvcsw;
    count_t nivcsw;
    count_t cfuture[3];
};

struct dsk {
    count_t rio;
    count_t rsz;
    count_t wio;
    count_t wsz;
    count_t cwsz;
    count_t cfuture[4];
};

struct mem {
    count_t minflt;
    count_t majflt;
    count_t vexec;
    count_t vmem;
    count_t rmem;
    count_t pmem;
    count_t vgrow;
    count_t rgrow;
    count_t vdata;
    count_t vstack;
    count_t vlibs;
    count_t vswap;
    count_t vlock;
    count_t cfuture[7];
};

struct net {
    count_t tcpsnd;
    count_t tcpssz;
    count_t tcprcv;
    count_t tcprsz;
    count_t udpsnd;
    count_t udpssz;
    count_t udprcv;
    count_t udprsz;
    count_t avail1;
    count_t avail2;
    count_t cfuture[4];
};

struct gpu {
    char state;
    char bfuture[3];
    short nrgpus;
    int gpulist;
    int gpubusy;
    int membusy;
    count_t timems;
    count_t memnow;
    count_t memcum;
    count_t sample;
    count_t cfuture[3];
};

struct tstat {
    struct gen gen;
    struct cpu cpu;
    struct dsk dsk;
    struct mem mem;
    struct net net;
    struct gpu gpu;
};

struct cggen {
    int structlen;
    int sequence;
    int parentseq;
    int depth;
    int nprocs;
    int procsbelow;
    int namelen;
    int fullnamelen;
    int ifuture[4];
    count_t namehash;
    count_t lfuture[4];
};

struct cgconfg {
    int cpuweight;
    int cpumax;
    count_t memmax;
    count_t swpmax;
    int dskweight;
    int ifuture[5];
    count_t cfuture[5];
};

struct cgcpu {
    count_t utime;
    count_t stime;
    count_t somepres;
    count_t fullpres;
    count_t cfuture[5];
};

struct cgmem {
    count_t current;
    count_t anon;
    count_t file;
    count_t kernel;
    count_t shmem;
    count_t somepres;
    count_t fullpres;
    count_t cfuture[5];
};

struct cgdsk {
    count_t rbytes;
    count_t wbytes;
    count_t rios;
    count_t wios;
    count_t somepres;
    count_t fullpres;
    count_t cfuture[5];
};

struct cstat {
    struct cggen gen;
    struct cgconfg conf;
    struct cgcpu cpu;
    struct cgmem mem;
    struct cgdsk dsk;
    char cgname[0];
};

/* top: Header = struct rawheader */
/* top: Record = struct rawrecord */
/* top: SStat = struct sstat */
/* top: TStat = struct tstat */
/* top: CStat = struct cstat */
